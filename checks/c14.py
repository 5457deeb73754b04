import glob, math, os
from vbuild import Build, VERIF, REPO
from tools import run_cases

DEPTHS = (5, 10, 15, 20, 30, 100, 200, 500, 1000)
PRICED = ('PC', 'SP', 'BP', 'BP4K', 'PBnDCG', 'BPnDCG')
NEEDS_RELEVANT = ('R', 'F1', 'MAP', 'GMAP') + PRICED + tuple('R@%d' % d for d in DEPTHS) + tuple('F1@%d' % d for d in DEPTHS)
TOOL = [None]


def bins(price, low, high):
    return 6 - sum(low + (high - low) * ((1 - math.exp(i)) / (1 - math.exp(5))) <= price for i in range(5))


def metrics(run, relevant, prices, depth, k, p):
    """The definitions.  relevant: the set of relevant documents; depth None is all of the run."""
    R = len(relevant)
    m = {'returned': len(run), 'relevant': R, 'found': sum(d in relevant for d in run)}

    def precision(n):
        looked = run if n is None else run[:n]
        at = len(run) if n is None else n
        return sum(d in relevant for d in looked) / at if at else 0

    def recall(n):
        looked = run if n is None else run[:n]
        return sum(d in relevant for d in looked) / (R if n is None else min(R, n)) if R else 0

    def f1(n):
        a, b = precision(n), recall(n)
        return 2 * a * b / (a + b) if a + b else 0

    m['P'], m['R'], m['F1'] = precision(None), recall(None), f1(None)
    for d in DEPTHS:
        m['P@%d' % d], m['R@%d' % d], m['F1@%d' % d] = precision(d), recall(d), f1(d)
    looked = run if depth is None else run[:depth]
    ranks = [i + 1 for i, d in enumerate(looked) if d in relevant]
    m['MRR'] = 1 / ranks[0] if ranks else 0
    m['MRR4K'] = sum(1 / r for r in ranks[:k]) / k if len(ranks) >= k else 0
    m['ESL'] = ranks[0] - 1 if ranks else (len(run) if depth is None else depth)
    m['MAP'] = sum((i + 1) / r for i, r in enumerate(ranks)) / R if R else 0
    m['RBP'] = (1 - p) * sum(p ** (r - 1) for r in ranks)
    m['GMAP'] = math.log(max(m['MAP'], 0.00001))
    for n in PRICED:
        m[n] = 0
    if prices and R:
        cost = [prices[d] for d in run]
        cheap = sorted(prices[d] for d in relevant)
        limit = cheap[min(len(run), R if depth is None else min(R, depth)) - 1]
        m['PC'] = sum(cost[r - 1] <= limit for r in ranks) / (len(run) if depth is None else depth)
        slots = R if depth is None else min(R, depth)
        m['SP'] = sum(cheap[i] / cost[r - 1] for i, r in enumerate(r for r in ranks if r <= slots)) / slots
        m['BP'] = cheap[0] / sum(cost[:ranks[0]]) if ranks else 0
        m['BP4K'] = sum(cheap[:k]) / sum(cost[:ranks[k - 1]]) if len(ranks) >= k else 0
        ideal = range(slots)
        m['PBnDCG'] = sum(bins(cost[r - 1], cheap[0], cheap[-1]) / math.log2(r + 1) for r in ranks) / sum(bins(cheap[r], cheap[0], cheap[-1]) / math.log2(r + 2) for r in ideal)
        m['BPnDCG'] = sum(cheap[0] / cost[r - 1] / math.log2(r + 1) for r in ranks) / sum(cheap[0] / cheap[r] / math.log2(r + 2) for r in ideal)
    return m


NAMES = {'Mean Reciprocal Rank (MRR)': 'MRR', 'Mean Reciprocal Rank for k(MRR4K)': 'MRR4K', 'Precision (P)': 'P', 'Recall (R)': 'R',
         'Expected Search Length (ESL)': 'ESL', 'F1 (F1)': 'F1', 'Mean Average Precision (MAP)': 'MAP', 'Rank Biased Precision (RBP)': 'RBP',
         'Geometric MAP (GMAP)': 'GMAP', 'Cheapest Precision (PC)': 'PC', 'Selling Power (SP)': 'SP', 'Buying Power (BP)': 'BP',
         'Buying Power for k (BP4K)': 'BP4K', 'Price Based Normalized Discounted Cumulative Gain (PBnDCG)': 'PBnDCG',
         'Buying Power Normalized Discounted Cumulative Gain (BPnDCG)': 'BPnDCG', 'Number Relevant': 'relevant',
         'Number of Results Returned': 'returned', 'Number Relevant Returned': 'found', 'Number of Queries': 'queries'}
for _d in DEPTHS:
    NAMES['Precision at %d (P@%d)' % (_d, _d)] = 'P@%d' % _d
    NAMES['Recall at %d (R@%d)' % (_d, _d)] = 'R@%d' % _d
    NAMES['F1 at %d (F1@%d)' % (_d, _d)] = 'F1@%d' % _d


def t_tail(t, nu):
    """P(T > t)"""
    to, steps = math.atan(t / math.sqrt(nu)), 2000
    c = math.exp(math.lgamma((nu + 1) / 2) - math.lgamma(nu / 2)) / math.sqrt(math.pi)
    f = lambda a: math.cos(a) ** (nu - 1)
    h = to / steps
    return 0.5 - c * h / 3 * (f(0) + f(to) + sum(f(i * h) * (4 if i % 2 else 2) for i in range(1, steps)))


def ranked(v):
    return [sum(x < y for x in v) + (sum(x == y for x in v) + 1) / 2 for y in v]


def spearman(a, b):
    a, b = ranked(a), ranked(b)
    ma, mb = sum(a) / len(a), sum(b) / len(b)
    return sum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sum((x - ma) ** 2 for x in a) * sum((y - mb) ** 2 for y in b))


def evaluation_tool(c):
    r = c.rng
    documents = ['%s%d' % (r.choice(('d', 'WSJ870324-', 'x')), i) for i in range(r.randint(3, 60))]
    queries = r.sample(['%d' % i for i in range(1, 300)] + ['Q%d' % i for i in range(10)], r.randint(1, 9))
    prices = {d: float('%.4g' % (r.choice((10, 20, 30)) if r.random() < .3 else r.uniform(.01, 200))) for d in documents} if r.random() < .5 else {}
    solid = r.random() < .8                                  # every assessed query has something relevant
    grades = r.choice(((1,), (1, 2, 3), (0.5, 1)))
    relevant, lines = {}, []
    for q in queries:
        if r.random() < .15 and len(queries) > 1 and relevant:
            continue                                                    # not assessed
        relevant[q] = set()
        rate = r.choice((.05, .3, .8))
        judged = [d for d in documents if r.random() < .7] or documents[:1]
        for d in judged:
            grade = r.choice(grades) if r.random() < rate else 0
            if d == judged[0] and (solid or r.random() < .5):
                grade = grades[0]
            if grade > 0:
                relevant[q].add(d)
            lines.append('%s%s0 %s %g' % (q, r.choice((' ', ' ', '  ')), d, grade))
    r.shuffle(lines)
    text = ''.join('PRICE 0 %s %s\n' % (d, prices[d]) for d in documents) if prices else ''
    text += '\n'.join(lines) + ('\n' if r.random() < .8 else '')
    c.write('qrels', text)
    runs = {}
    tags = r.sample(('bm25', 'JASSv2', 'a-much-longer-run-name', 'x', 'run1', 'run2', 'run3'), r.choice((1, 1, 2, 3, 5)))
    for n, tag in enumerate(tags):
        results = {q: r.sample(documents, r.randint(1, len(documents))) for q in queries if r.random() < .85}
        if not results:
            results = {queries[0]: documents[:2]}
        out = []
        for q in results:
            base = r.choice((0, 1))
            for i, d in enumerate(results[q]):
                out.append('%s%s Q0 %s %d %s %s' % (r.choice(('', '', '', ' ')), q, d, i + base, r.choice(('%d', '%.3f')) % (5000 - i), tag))
        if r.random() < .3:
            r.shuffle(out)
        runs['%s.run' % r.choice('abcdef') + str(n)] = (tag, results)
        c.write(list(runs)[-1], '\n'.join(out) + ('\n' if r.random() < .9 else ''))
    depth = None if r.random() < .4 else r.choice((1, 2, 3, 5, 10, 20, 100, 1000, r.randint(1, 40)))
    k = r.choice((1, 2, 3, 10, r.randint(1, 12)))
    p = r.choice((0.95, 0.5, 0.8, 0, 1))
    zeroless = r.random() < .3
    cmd = [TOOL[0], '-a', 'qrels', '-r', ','.join(runs)]
    if depth is not None: cmd += ['-n', str(depth)]
    if k != 10 or r.random() < .5: cmd += ['-k', str(k)]
    if p != 0.95 or r.random() < .5: cmd += ['-P', str(p)]
    if zeroless: cmd += [r.choice(('-Z', '--Zeroless-averaging'))]
    per_query = r.random() < .7
    if per_query: cmd += ['-p']
    if r.random() < .6: cmd += ['-t', '-s']
    got = c.run(cmd, ok=(0,))
    body, _, tests = got.out.partition('t-test')
    tests = _ + tests
    if not _:
        body, _, correlations = got.out.partition('Spearman Correlation')
        tests = _ + correlations
    blocks = {}
    for b in body.split('QUERY ID                     : ')[1:]:
        rows = b.split('\n')
        q = rows[0]
        tag = rows[1].partition(': ')[2]
        values = {}
        for row in rows[2:]:
            name, sep, value = row.rpartition(': ')
            if sep:
                values[name.strip()] = value.strip()
        c.check((tag, q) not in blocks, 'report:twice', 'query %s of run %s is reported twice' % (q, tag))
        blocks[tag, q] = values
    expected = {}
    averages = {}
    for name, (tag, results) in runs.items():
        for q in results:
            expected[tag, q] = metrics(results[q], relevant.get(q, set()), prices, depth, k, p)
        over = list(results) if zeroless else [q for q in results if q in relevant]
        count = len(results) if zeroless else len(relevant)
        mean = {'queries': len(over)}
        for n in expected[tag, list(results)[0]]:
            total = sum(expected[tag, q][n] for q in over)
            if n in ('relevant', 'found', 'returned'):
                mean[n] = total
            elif n == 'GMAP':
                mean[n] = math.exp((total + (count - len(over)) * math.log(0.00001)) / count)
            else:
                mean[n] = total / count
        # what the value is when there is nothing relevant is not laid down
        undefined = any(not relevant.get(q) for q in over)
        averages[name] = (mean, undefined)
        expected[tag, 'Averages'] = {n: v for n, v in mean.items() if not (undefined and n in NEEDS_RELEVANT)}
    wanted = set(expected) if per_query else {(tag, 'Averages') for tag, _ in runs.values()}
    c.check(set(blocks) == wanted, 'report:queries', lambda: 'reported %s rather than %s' % (sorted(blocks), sorted(wanted)))
    for key in wanted & set(blocks):
        values = {}
        for n, v in blocks[key].items():
            if not c.check(n in NAMES, 'report:name', 'there is no metric called %r' % n):
                continue
            try:
                values[NAMES[n]] = float(v)
            except ValueError:
                values[NAMES[n]] = math.nan
            c.check(math.isfinite(values[NAMES[n]]), 'report:not-a-number:' + NAMES[n], '%s is %s for %s' % (n, v, key))
        none = key[1] != 'Averages' and not relevant.get(key[1])
        for n, want in expected[key].items():
            if none and n in NEEDS_RELEVANT or key[1] != 'Averages' and n == 'GMAP':
                continue
            have = values.get(n)
            c.check(have is not None and abs(have - want) <= 6e-5 * max(1, abs(want) if n == 'SP' else 1), 'report:%s:%s' % ('mean' if key[1] == 'Averages' else 'query', n),
                    lambda: '%s of %s is %s rather than %s\nassessments\n%s\nrun %s' % (n, key, have, want, text[:2000], {t: x for t, x in runs.values()}))
            c.tally('values of the report compared')
        if len(expected[key]) > 5:
            c.nontrivial((key, sorted(expected[key].items())))
    if len(runs) > 1 and '-t' in cmd:
        order = sorted(runs)
        titles = ['Mean Reciprocal Rank (MRR)', 'F1 (F1)', 'F1 at 30 (F1@30)', 'Mean Average Precision (MAP)']
        if prices:
            titles += ['Cheapest Precision (PC)', 'Selling Power (SP)', 'Buying Power (BP)', 'Buying Power for k (BP4K)']
        tables = tests.partition('Spearman Correlation')[0].split('t-test (1-tail, paired) matrix of p values for ')[1:]
        c.check([t.split('\n')[0] for t in tables] == titles, 'ttest:tables', got.out[-3000:])
        for title, table in zip(titles, tables):
            rows = [l.split() for l in table.split('\n')[1:] if l.strip()]
            names = [runs[n][0] for n in order]
            if not c.check(rows[0] == names and [x[0] for x in rows[1:]] == names and all(len(x) == len(names) + 1 for x in rows[1:]), 'ttest:layout', table):
                continue
            m = NAMES[title]
            for i, first in enumerate(order):
                for j, second in enumerate(order):
                    common = sorted(set(runs[first][1]) & set(runs[second][1]))
                    if m in NEEDS_RELEVANT and any(not relevant.get(q) for q in common):
                        continue
                    a = [expected[runs[first][0], q][m] for q in common]
                    b = [expected[runs[second][0], q][m] for q in common]
                    n, cell = len(a), rows[i + 1][j + 1]
                    mean = sum(x - y for x, y in zip(a, b)) / n if n else 0
                    variance = sum((x - y - mean) ** 2 for x, y in zip(a, b)) / (n - 1) if n > 1 else 0
                    if n < 2:
                        c.check(cell == '1.0000', 'ttest:small', 'the p-value of %d queries is %s' % (n, cell))
                    elif i == j:
                        c.check(cell == '-', 'ttest:self', 'a run differs from itself with p = %s' % cell)
                    elif variance > 1e-9:
                        want = t_tail(abs(mean) / math.sqrt(variance / n), n - 1)
                        c.check(cell.replace('.', '').isdigit() and abs(float(cell) - want) < 6e-5 + 2e-6, 'ttest:value', '%s: p of %s and %s is %s rather than %f\n%s\n%s' % (title, first, second, cell, want, a, b))
                        c.tally('t-tests of the report compared')
        # Spearman over the metrics
        table = tests.partition('Spearman Correlation across metrics\n')[2]
        titles = ['F1 (F1)', 'Mean Average Precision (MAP)']
        at = 'F1 at %d (F1@%d)' % (depth or 0, depth or 0)
        titles += ['Precision at %d (P@%d)' % (depth, depth), 'Recall at %d (R@%d)' % (depth, depth), at] if at in NAMES else ['Precision (P)', 'Recall (R)', 'F1 (F1)']
        if prices:
            titles += ['Cheapest Precision (PC)', 'Selling Power (SP)', 'Buying Power (BP)', 'Buying Power for k (BP4K)', 'Mean Reciprocal Rank (MRR)', 'Mean Reciprocal Rank for k(MRR4K)', 'Expected Search Length (ESL)', 'Rank Biased Precision (RBP)']
        rows = [l for l in table.split('\n') if l.strip()]
        if c.check(len(rows) == len(titles) + 1, 'spearman:layout', table):
            for i, first in enumerate(titles):
                cells = rows[i + 1].split(first, 1)[-1].split()
                if not c.check(rows[i + 1].strip().startswith(first) and len(cells) == len(titles), 'spearman:layout', table):
                    continue
                for j, second in enumerate(titles):
                    a, b = [[averages[n][0][NAMES[t]] for n in order] for t in (first, second)]
                    clear = all(abs(v[x] - v[y]) > 1e-9 for v in (a, b) for x in range(len(v)) for y in range(x))
                    if not clear or any(averages[n][1] for n in order):
                        continue
                    want = spearman(a, b)
                    c.check(abs(float(cells[j]) - want) < 6e-5, 'spearman:value', 'rho of %s and %s is %s rather than %f\n%s\n%s' % (first, second, cells[j], want, a, b))
                    c.tally('correlations of the report compared')
    c.sample('%s: %s' % (' '.join(cmd[1:]), dict(list(averages.items())[:1])))


def run(chk):
    b = Build('asan')
    sources = [os.path.basename(f) for f in glob.glob(REPO + '/source/evaluate*.cpp')] + ['statistics.cpp', 'file.cpp', 'asserts.cpp', 'unittest_data.cpp', 'ascii.cpp', 'maths.cpp']
    sources = [s for s in sources if os.path.exists(REPO + '/source/' + s) or s == 'ascii.cpp']
    prog = b.program('c14_evaluate', [VERIF + '/drivers/c14_evaluate.cpp'], subset=sources)
    TOOL[0] = b.program('JASS_eval', [REPO + '/tools/JASS_eval.cpp'], subset=sources + ['commandline.cpp'])
    chk.build([b])
    chk.run_driver(prog)
    run_cases(chk, [('evaluation-tool', 600, 12000, evaluation_tool)])
    return chk.finish(
        rule='a case is one set of assessments (and prices), with rankings, depths and parameters, through every metric class against its definition; '
             'or the same through JASS_eval, parsing its report; distinct_nontrivial counts distinct rankings with two or more relevant documents, '
             'pairs of samples for a t-test, and (run, query) reports',
        assumptions=['recall at a depth is out of the most that could be found there, min(relevant, depth)',
                     'what a metric is when nothing is relevant, or at a depth of 0, need only be a number in range',
                     'grades are not negative, prices are positive, a document is in a ranking once, k is at least 1',
                     'GMAP takes an average precision below 0.00001 as that'],
        minimum=100000)
