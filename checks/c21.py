from vbuild import Build, VERIF, REPO

SOURCES = ['stem_porter.cpp', 'ascii.cpp', 'asserts.cpp', 'parser.cpp', 'unicode.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c21_stem', [VERIF + '/drivers/c21_stem.cpp'], subset=SOURCES)
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='an evaluation is one word stemmed and compared with the algorithm of the 1980 paper written independently (rules with the longest matching suffix, '
             'recursive definition of a consonant): random stems with up to three of 75 suffixes, every stem of up to two (thorough: three) of 15 letters with every pair of suffixes, '
             'every word of five (thorough: six) of 10 letters; byte strings that are not words; tokens stemmed into themselves',
        assumptions=['words have no zero bytes', 'words of one or two letters may also be left unchanged, as the published program does'],
        minimum=100000)
