from vbuild import Build, VERIF, REPO

SOURCES = ['allocator_pool.cpp', 'allocator_memory.cpp', 'asserts.cpp', 'maths.cpp', 'hash_pearson.cpp']


def run(chk):
    a, t = Build('asan'), Build('tsan')
    # atomics have to be aligned to be atomic
    p1 = a.program('c15_concurrent', [VERIF + '/drivers/c15_concurrent.cpp'], subset=SOURCES, flags=['-fsanitize=alignment'])
    p2 = t.program('c15_concurrent', [VERIF + '/drivers/c15_concurrent.cpp'], subset=SOURCES)
    chk.build([a, t])
    chk.run_driver(p1)
    chk.run_driver(p2, label='tsan-')
    return chk.finish(
        rule='a case is one tree, table or list, 1..400 keys and 1, 2, 4 or 8 threads whose look-ups and appends are delayed at random inside the operations; '
             'an evaluation is one look-up or element judged; distinct_nontrivial counts distinct final tree shapes and list orders, that is interleavings',
        assumptions=['iteration, indexing and serialising happen when no thread is inserting', 'the initial size and growth factor of a list are at least 1'],
        minimum=10000)
