from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c03_formats', [VERIF + '/drivers/c03_formats.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one generated collection written by the serialisers as nine indexes (version 1 with five codecs, version 2 with four), each read back, looked up in, '
             'and searched; distinct_nontrivial counts distinct collections and distinct (query, collection) pairs with results',
        assumptions=['impacts are 1 to 1024', 'terms hold no zero byte', 'the codec is given the alignment it needs (QMX: 16)'],
        minimum=10000)
