#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (the checks that exist are the ones claimed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = 'runtime monitoring: real code under AddressSanitizer+UBSan, '
TSAN = 'runtime monitoring: real code under AddressSanitizer+UBSan and ThreadSanitizer, '
TECH = {
    'C01': SAN + 'round-trip oracle over generated sequences and buffer sizes for all codecs',
    'C02': SAN + 'the real indexer and its index dumped and compared with an independent model of the collection',
    'C03': SAN + 'the same collection written in every format and codec, loaded, dumped and searched, all compared',
    'C04': SAN + 'search results compared with a brute-force ranker over random indexes and queries',
    'C05': SAN + 'every accumulator and top-k strategy fed the same additions and compared with an array and a sort',
    'C06': SAN + 'budgeted search compared with a reference model of segment order and budget',
    'C07': SAN + 'history monitor: the same query after different histories must give the same answer',
    'C08': TSAN + 'batches searched by 1..16 threads compared with sequential search; race detector over the search path',
    'C09': SAN + 'random call sequences on the search API checked against a state model',
    'C10': SAN + 'query and document tokenisers compared with an independent tokeniser',
    'C11': SAN + 'grammar and mutation generated documents in exact-size buffers with a token provenance oracle',
    'C12': SAN + 'generated collections fed through streams with injected short reads and small buffers, records compared',
    'C13': SAN + 'generated CIFF files imported by the real tool, the index dumped and compared',
    'C14': SAN + 'metrics compared with independent definitions; the evaluation tool run on generated runs',
    'C15': TSAN + 'concurrent insert/find histories checked for lost, duplicated and misordered elements',
    'C16': TSAN + 'allocation monitor: disjointness, alignment, content canaries and accounting',
    'C17': SAN + 'heaps and partial sorts compared step by step with a sorted reference',
    'C18': SAN + 'byte round trips through files, channels, streams and compressors with varied splits',
    'C19': SAN + 'all code points against the Unicode data files; UTF-8 sequences in exact-size buffers',
    'C20': SAN + 'generated command lines against a reference parser',
    'C21': SAN + 'stemmer compared with an independent implementation of the published algorithm',
    'C22': SAN + 'bit strings and bit streams compared with sets of integers',
    'C23': SAN + 'all exports of the same indexing run decoded independently and compared',
    'C24': SAN + 'threshold search compared with brute force over random indexes, queries and thresholds',
    'C25': SAN + 'the real search tool run on generated query files and its run file checked against a model',
}
LEVEL = 'exploration'
NOTE = 'Bounded by generated cases (deterministic in VERIF_SEED); the oracle observes real executions, so only what the workload reaches is decided.'

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        checks.append({
            'property': p,
            'quick_cmd': 'python3 run.py %s --tier quick' % p,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': TECH[p],
            'level': LEVEL,
            'level_note': NOTE,
        })
    else:
        missing.append({'property': p, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': missing}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'not claimed')
