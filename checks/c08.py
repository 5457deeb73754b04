from vbuild import Build, VERIF, REPO


def run(chk):
    sources = [VERIF + '/drivers/c08_threads.cpp', REPO + '/anytime/JASS_anytime_api.cpp']
    a, t = Build('asan'), Build('tsan')
    asan, tsan = a.program('c08_threads', sources), t.program('c08_threads_tsan', sources)
    chk.build([a, t])
    chk.run_driver(asan)
    chk.run_driver(tsan)
    return chk.finish(
        rule='a case is one index, 4 batches of up to 40 queries, each searched 3 times with 1..16 threads under injected yields and sleeps; '
             'distinct_nontrivial counts distinct assignments of the queries of a batch to threads',
        assumptions=['the queries of a batch have distinct ids (answers are filed by id)'],
        minimum=300)
