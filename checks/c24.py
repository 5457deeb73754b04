from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c24_threshold', [VERIF + '/drivers/c24_threshold.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(rule='a case is one random index, 30 queries with thresholds around their k-th score and 90 searches with varied minimum postings; distinct_nontrivial counts (query, threshold, minimum) triples with an effective threshold', minimum=1000)
