#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, shutil, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import vcheck, vbuild


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property', nargs='?')
    a.add_argument('--setup', action='store_true', help='create the working folders; every check builds what it needs itself')
    a.add_argument('--tier')
    a.add_argument('--seed')
    a.add_argument('--replay')
    o = a.parse_args()
    if o.setup or not o.property:
        for d in ('build', 'evidence', 'replays', 'scratch'):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        return 0
    replay = None
    if o.replay:
        doc = json.load(open(o.replay))
        replay = doc['replay']
        o.seed = replay.get('seed', o.seed)
        o.tier = replay.get('tier', o.tier)
    chk = vcheck.Check(o.property, o.tier, o.seed, replay)
    try:
        module = importlib.import_module(o.property.lower())
        return module.run(chk)
    except vbuild.BuildError as e:
        print('HARNESS ERROR: the build failed\n' + str(e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
