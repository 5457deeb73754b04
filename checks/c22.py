from vbuild import Build, VERIF, REPO

SOURCES = ['bitstring.cpp', 'asserts.cpp', 'maths.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c22_bits', [VERIF + '/drivers/c22_bits.cpp'], subset=SOURCES)
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is four bit strings of 0..20000 bits under up to 60 operations, or a bit stream of up to 120 fields of 0..64 bits; an evaluation is one '
             'whole bit string compared with a set of integers (every bit, its count, its bytes), or one stream written and read back twice',
        assumptions=['a bit string has been given a length before it is used'],
        minimum=10000)
