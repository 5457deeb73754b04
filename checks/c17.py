from vbuild import Build, VERIF, REPO

SOURCES = ['allocator_pool.cpp', 'allocator_memory.cpp', 'asserts.cpp', 'maths.cpp', 'top_k_qsort.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c17_heaps', [VERIF + '/drivers/c17_heaps.cpp'], subset=SOURCES)
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one structure of random size and a random sequence of values and operations (sorted, reversed, organ pipe, saw tooth, few or many '
             'distinct values); an evaluation is one step after which content, order and smallest element are compared with a sorted copy',
        assumptions=['k is at least 1', 'callers of the plain heap push only what is better than the root, as documented'],
        minimum=10000)
