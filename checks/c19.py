import os
from vbuild import Build, VERIF, REPO
import ucd


def run(chk):
    b = Build('asan')
    prog = b.program('c19_unicode', [VERIF + '/drivers/c19_unicode.cpp'], subset=['unicode.cpp', 'ascii.cpp', 'asserts.cpp'])
    chk.build([b])
    path = os.path.join(chk.scratch, 'ucd.bin')
    for name, count in ucd.write(path).items():
        chk.tally('Unicode data: ' + name, count)
    chk.run_driver(prog, env={'VF_UCD': path})
    return chk.finish(
        rule='an evaluation is one class, folding or conversion of one code point or byte sequence compared with the reference: every code point from 0 to 10FFFF in 15 classes '
             'and folded, against the Unicode data files read by another reader; every scalar value encoded into buffers of 0 to 5 bytes, decoded back, decoded truncated and followed by another byte; '
             'byte sequences of up to 6 bytes (all of up to 2, thorough: 3, and all combinations of the 30 bytes at which the rules change) against the well-formedness table of the Unicode standard, each in a buffer that ends where the sequence does',
        assumptions=['the data files in external/Unicode are the data', 'XML name classes are compared for assigned code points', 'Hangul syllables are not decomposed (they have no mapping in the data)'],
        minimum=1000000)
