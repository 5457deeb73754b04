from vbuild import Build, VERIF, REPO


def run(chk):
    b = Build('asan')
    prog = b.program('c06_budget', [VERIF + '/drivers/c06_budget.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(rule='a case is one random index and 60 queries with budgets at, just below and just above segment boundaries, absolute, relative and proportional; distinct_nontrivial counts (query, budget) pairs the budget cut', minimum=1000)
