from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c09_states', [VERIF + '/drivers/c09_states.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one engine and 45 calls in random order (loads of good, missing and emptied indexes, settings in and out of range, hostile and '
             'ordinary queries); distinct_nontrivial counts distinct (call history, position) pairs',
        assumptions=['an index that is damaged in some other way than missing or empty files is not a valid input',
                     'thresholds and percentages are not negative'],
        minimum=1000)
