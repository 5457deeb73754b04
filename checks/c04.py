from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c04_topk', [VERIF + '/drivers/c04_topk.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one random index (1..3000 documents, 5 codecs, 2 versions, all accumulator widths) and 25 queries; distinct_nontrivial counts '
             'distinct (index shape, query) pairs with a non-empty answer',
        assumptions=['queries have at most 254 distinct terms (more cannot be told apart in an 8-bit accumulator; see C09 for their safety)'],
        minimum=1000)
