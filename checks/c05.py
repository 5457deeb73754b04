from concurrent.futures import ThreadPoolExecutor
from vbuild import Build, VERIF

CONFIGURATIONS = range(11)
LIBRARY = ['unicode.cpp', 'ascii.cpp', 'asserts.cpp', 'allocator_memory.cpp', 'allocator_pool.cpp', 'slice.cpp', 'parser_query.cpp', 'query_term_list.cpp']


def run(chk):
    import os
    b = Build('asan')
    have = [n for n in LIBRARY if n in ('unicode.cpp', 'ascii.cpp') or os.path.exists(os.path.join(b.source, n))]
    programs = [b.program('c05_strategies_%d' % c, [VERIF + '/drivers/c05_strategies.cpp'], subset=have, flags=['-DCONF=%d' % c]) for c in CONFIGURATIONS]
    chk.build([b])
    with ThreadPoolExecutor(max_workers=4) as pool:
        list(pool.map(chk.run_driver, programs))
    return chk.finish(
        rule='a case is one object of one strategy in one configuration and 3..300 queries on it (or one accumulator arrangement and up to 600 rewinds); '
             'distinct_nontrivial counts distinct non-empty (complete ranking, k, collection size) triples',
        assumptions=['additions keep every total within an accumulator (255), as the engine scales them to',
                     'query_bucket is an approximation by design (its buckets hold a bounded number of documents) and is not compared'],
        minimum=2000)
