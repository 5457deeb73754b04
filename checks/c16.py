from vbuild import Build, VERIF, REPO

SOURCES = ['allocator_pool.cpp', 'allocator_memory.cpp', 'asserts.cpp', 'maths.cpp']


def run(chk):
    a, t = Build('asan'), Build('tsan')
    flags = ['-Wl,--wrap=malloc']
    p1 = a.program('c16_allocators', [VERIF + '/drivers/c16_allocators.cpp'], subset=SOURCES, libs=flags)
    p2 = t.program('c16_allocators', [VERIF + '/drivers/c16_allocators.cpp'], subset=SOURCES, libs=flags)
    chk.build([a, t])
    chk.run_driver(p1)
    chk.run_driver(p2, label='tsan-')
    return chk.finish(
        rule='a case is one allocator and up to 120 requests of random size and alignment (or 2..8 threads of up to 200 requests each); an evaluation is one block '
             'judged for alignment, ownership, disjointness and intact contents; distinct_nontrivial counts distinct request sequences and, for the '
             'threaded cases, distinct orders in which the threads were served',
        assumptions=['a request is below 2^32 bytes for the pool', 'the system allocator itself does not fail'],
        minimum=10000)
