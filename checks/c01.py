import os
from vbuild import Build, VERIF


def run(chk):
    b = Build('asan')
    prog = b.program('c01_codecs', [VERIF + '/drivers/c01_codecs.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one integer sequence (10 shapes x lengths around every block size) pushed through one codec, into an ample and into several short '
             'destinations, decoded and compared; distinct_nontrivial counts distinct (codec, sequence) pairs that were encoded',
        assumptions=['decoders may read up to 64 bytes past the end of a list (in an index another list or padding follows) and may write up to 2048 integers past the number asked for, as the interface documents "may decode more"',
                     'sequences are limited to each codec\'s documented integer range'],
        minimum=5000)
