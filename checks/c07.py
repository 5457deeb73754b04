from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c07_history', [VERIF + '/drivers/c07_history.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(rule='a case is one index, three engines and hundreds of steps of (engine, settings, query); every answer is compared with the first answer seen for the same settings and query; distinct_nontrivial counts distinct (query, settings, engine) situations compared', minimum=1000)
