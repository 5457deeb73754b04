import os, re
from vbuild import Build, VERIF, REPO
from tools import run_cases
from collections_ import *

BIN = {}
NAMES = {'s': 'None', 'q': 'QMX JASS v1'}


def make_index(c):
    r = c.rng
    documents = r.choice((1, 2, 9, 10, 11, 100, 255, 257, 1000, 4000))
    keys = [r.choice(('%d', 'doc%d', 'clueweb12-%04d-x', 'D.%d')) % d for d in range(1, documents + 1)]
    top = r.choice((1, 3, 20, 100, 255, 256, 1024))
    lists = {}
    for t in words(r, r.choice((1, 4, 30))):
        n = r.choice((1, documents, r.randint(1, documents), min(documents, r.choice((7, 8, 9, 128, 257)))))
        impacts = r.choice(([top], [1, top], range(1, top + 1)))
        lists[t] = {d: r.choice(impacts) for d in r.sample(range(1, documents + 1), n)}
    version, codec = r.choice([(v, k) for v in '12' for k in 'gGDqsss' if (v, k) != ('2', 'q')])
    c.write('listed', ''.join('key %s\n' % k for k in keys) + ''.join('term %s %s\n' % (latin(t), ' '.join('%d:%d' % (d, i) for d, i in sorted(p.items()))) for t, p in lists.items()))
    c.run([BIN['write'], version, codec, 'listed'], ok=(0,))
    return keys, lists, version, codec


def make_queries(c, lists, count):
    """[(id, words)]; each word is a term of the index or not"""
    r = c.rng
    known, out = sorted(lists), []
    numbers = r.sample(range(1, 100000), count)
    for n in numbers:
        size = r.choice((1, 1, 2, 3, 5, 12)) if r.random() < .97 else r.choice((60, 254, 255, 256, 300))
        out.append((str(n), [r.choice(known) if r.random() < .85 else r.choice(('zzzznothing', '99999999999', 'q')) for _ in range(size)]))
    return out


def jass_topics(c, queries, ascii_only):
    """The text of a query file, one query per line, and what the tool takes each query to be"""
    r = c.rng
    end = r.choice(('\n', '\n', '\r\n'))
    names = r.random() < .3
    text, expect = '', {}
    for n, (number, terms) in enumerate(queries):
        number = number if n == 0 or not names else r.choice(('MB%s', 'Q-%s', 'x_%s')) % number
        written = terms if ascii_only or r.random() < .5 else [t.upper() if t.isascii() and r.random() < .5 else t for t in terms]
        gap = lambda: r.choice((' ', ' ', '  ', '\t')) if ascii_only else r.choice((' ', ' ', '  ', '\t', ', ', '; '))
        body = written[0] + ''.join(gap() + t for t in written[1:])
        expect[number] = body
        text += number + r.choice((' ', '\t', ':', ': ', '  ')) + body + r.choice(('', '', ' ', ' \t')) + end
        if r.random() < .1: text += r.choice(('', '  ', '\t')) + end
        if r.random() < .02: text += end * 3
    if r.random() < .3: text = text.rstrip('\r\n')
    return text, expect


def trec_topics(c, queries):
    """A TREC topic file, each element on a line of its own"""
    r = c.rng
    noise = lambda: ' '.join(r.choice(WORDS) for _ in range(r.randint(1, 12)))
    text, expect = '', {}
    if r.random() < .5:
        style = 'title'
        for number, terms in queries:
            case = [t.upper() if t.isascii() and r.random() < .3 else t for t in terms]
            text += r.choice(('', '\n', '\n\n')) + '<top>\n' + r.choice(('', '\n')) + '<num> Number: %s%s\n' % (number, r.choice(('', ' ')))
            if r.random() < .3: text += '<dom> Domain: ' + noise() + '\n'
            split = r.randrange(len(case)) if r.random() < .3 else 0
            if r.random() < .5: text += '<title> ' + ' '.join(case[:split]) + ('\n' if split else '') + r.choice((' ', ', ', '-')).join(case[split:]) + r.choice(('', ' ', '.')) + '\n'
            else: text += '<title>\n' + ' '.join(case) + '\n'
            text += r.choice(('', '\n')) + '<desc> Description:\n' + noise() + '\n' + noise() + '.\n'
            if r.random() < .5: text += '\n<narr> Narrative:\n' + noise() + '\n'
            text += r.choice(('', '\n')) + '</top>\n'
            expect[number] = ' '.join(terms)
    else:
        style = 'query'
        text = '<webtrack2013>\n' if r.random() < .7 else '<?xml version="1.0" encoding="UTF-8"?>\n<webtrack>\n'
        for number, terms in queries:
            text += r.choice(('', '\n')) + '<topic number="%s"%s>\n' % (number, r.choice(('', ' type="single"', ' type="faceted"')))
            text += r.choice(('', '  ', '\t')) + '<query>' + ' '.join(terms) + '</query>\n'
            if r.random() < .7: text += '  <description>' + noise() + '\n  ' + noise() + '</description>\n'
            if r.random() < .4: text += '  <subtopic number="%d" type="nav">%s</subtopic>\n' % (r.randint(1, 9), noise())
            text += '</topic>\n'
            expect[number] = ' '.join(terms)
        text += r.choice(('', '</webtrack2013>\n'))
    return text, expect, style


def read_run(c, label, k):
    """ranking.txt -> id -> [(document, key, score)]; and the statistics: id -> (query, postings)"""
    text = c.read('ranking.txt').decode('latin-1')
    out, odd, closed, last = {}, [], set(), None
    for line in text.split('\n')[:-1] if text else []:
        m = re.match(r'^(\S+) Q0 (\S+) (\d+) (\d+) JASSv2\(ID:(\d+)->(\d+)\)$', line)
        if not m or m.group(4) != m.group(6):
            odd.append(line[:200])
            continue
        number = m.group(1)
        if number != last:
            if number in closed: odd.append('results of %s are not together' % number)
            closed.add(number)
            last = number
        got = out.setdefault(number, [])
        if int(m.group(3)) != len(got) + 1: odd.append('rank: ' + line[:200])
        if got and got[-1][2] < int(m.group(4)): odd.append('score rises: ' + line[:200])
        got.append((int(m.group(5)) + 1, m.group(2), int(m.group(4))))
    if text and not text.endswith('\n'): odd.append('the last line has no end')
    for number, got in out.items():
        if len(got) > k: odd.append('%d results for %s' % (len(got), number))
        if len({d for d, _, _ in got}) != len(got): odd.append('a document is twice in the results for %s' % number)
    c.check(not odd, 'run-format' + label, lambda: 'of ranking.txt: %s' % odd[:4])
    stats, twice = {}, []
    for m in re.finditer(r'<id>(.*?)</id><query>(.*?)</query><postings>(\d+)</postings><time_ns>\d+</time_ns>\n', c.read('JASSv2Stats.txt').decode('latin-1'), re.S):
        if m.group(1) in stats: twice.append(m.group(1))
        stats[m.group(1)] = (m.group(2), int(m.group(3)))
    c.check(not twice, 'stats-twice' + label, lambda: 'queries twice in JASSv2Stats.txt: %s' % twice[:5])
    return out, stats


def exhaustive(lists, terms, k):
    """The results of a search with no limits: [(document, score)] and the number of postings; None where rounding decides"""
    count = collections.Counter(terms)
    found = {t: n for t, n in count.items() if t in lists}
    postings = sum(len(lists[t]) for t in found)
    largest = sum(max(lists[t].values()) * n for t, n in found.items())
    scores = collections.Counter()
    for t, n in found.items():
        for d, i in lists[t].items():
            s = i * n
            if largest > 255:
                if len(count) < 255: s = s / largest * (255 - len(count)) + 1
                else: s = s / largest * 255
                if abs(s - round(s)) < 1e-6: return None, postings
                s = int(s)
            scores[d] += s
    return sorted(((d, s) for d, s in scores.items() if s), key=lambda x: (-x[1], -x[0]))[:k], postings


def search(c):
    r = c.rng
    keys, lists, version, codec = make_index(c)
    queries = make_queries(c, lists, r.choice((1, 2, 10, 40)))
    k = r.choice((1, 2, 5, 10, 10, 10, 100, 1000))
    ascii_only = r.random() < .3
    style = 'jass'
    if r.random() < .6:
        text, expect = jass_topics(c, queries, ascii_only)
    else:
        text, expect, style = trec_topics(c, queries)
    c.write('topics', text.encode('utf-8'))
    order = list(expect)
    terms_of = {number: terms for number, (_, terms) in zip(order, queries)}

    options, spec = [], []
    if version == '2': options.append(['-2'])
    spec.append('version ' + version)
    if k != 10 or r.random() < .3: options.append(r.choice((['-k%d' % k], ['-k', str(k)], ['--top-k', str(k)])))
    spec.append('k %d' % k)
    if r.random() < .3:
        w = r.randint(1, 12)
        options.append(['-w', str(w)])
        spec.append('width %d' % w)
    if ascii_only:
        options.append([r.choice(('-a', '--asciiparser'))])
        spec.append('ascii')
    limited, total = set(), max(1, sum(map(len, lists.values())))
    if r.random() < .5:
        for name in r.sample(('R', 'Rmin', 'r', 'rmin', 'relative', 'oracle'), r.choice((1, 1, 2))):
            limited.add(name)
    if 'oracle' in limited:
        c.write('scores', ''.join('%s %d\n' % (n, r.choice((0, 1, 2, 10, 100, 255, 300))) for n in order if r.random() < .9))
        options.append(['-Q', 'scores'])
        spec.append('oracle scores')
    for name, flags, value in (('R', ('-R', '--RHO'), r.randint(1, total + 1)), ('Rmin', ('-⌊R⌋', '--RHO_min'), r.randint(1, total + 1)),
                               ('r', ('-r', '--rho'), r.choice((0, 1, 10, 50, 99, 150, 1000))), ('rmin', ('-⌊r⌋', '--rho_min'), r.choice((1, 10, 50, 150))),
                               ('relative', ('-ℝ', '--Relative_RHO'), r.choice((0, 1, 25, 50, 75, 99)))):
        if name in limited:
            options.append([r.choice(flags), str(value)])
            spec.append('%s %d' % (name, value))
    options.append(['-q', 'topics'])
    r.shuffle(options)
    label = ':' + style + (':limited' if limited else '')

    c.write('spec', ('\n'.join(spec) + '\n' + ''.join('query %s %s\n' % (n, q) for n, q in expect.items())).encode('utf-8'))
    out = c.run([BIN['api'], 'spec'], ok=(0,)).out
    api, api_postings, now = {}, {}, None
    for line in out.split('\n')[:-1]:
        if line.startswith('query '):
            now, postings, _ = line[6:].split('\t', 2)
            api[now], api_postings[now] = [], int(postings)
        else:
            m = re.match(r'^(\S+) Q0 (\S+) (\d+) (\d+) JASSv2\(ID:(\d+)', line)
            api[now].append((int(m.group(5)) + 1, m.group(2), int(m.group(4))))
    c.check(list(api) == order, 'api-queries', 'the engine did not answer each query')

    for threads in (1, r.choice((2, 3, 4, 7)) if codec in 'sq' else 2):
        extra = [] if threads == 1 and r.random() < .5 else r.choice((['-t', str(threads)], ['-t%d' % threads], ['--threads', str(threads)]))
        result = c.run([BIN['tool']] + sum(options, []) + extra, ok=(0,))
        for name in ('Threads', 'Queries', 'Documents'):
            m = re.search(r'^%s *: (\d+)$' % name, result.out, re.M)
            want = {'Threads': threads, 'Queries': len(order), 'Documents': len(keys)}[name]
            c.check(m and int(m.group(1)) == want, 'stats-%s%s' % (name.lower(), label), lambda: '%s: %s rather than %d\n%s' % (name, m and m.group(1), want, text[:1500]))
        if codec in NAMES:
            c.check('Index compressed with %s-D1' % NAMES[codec] in result.out, 'stats-codec', lambda: 'the codec is not named: ' + result.out[:500])
        run, stats = read_run(c, label, k)
        c.check(set(stats) == set(order), 'queries' + label, lambda: 'queries answered %s rather than %s, of\n%s' % (sorted(set(stats) - set(order))[:5], sorted(set(order) - set(stats))[:5], text[:1500]))
        c.check(set(run) <= set(order), 'ids' + label, lambda: 'ids in the run that are not in the query file: %s' % sorted(set(run) - set(order))[:5])
        for number in order:
            c.evaluation(2)
            got = run.get(number, [])
            if number in stats:
                said = stats[number][0]
                c.check(said.encode('latin-1').decode('utf-8').rstrip() == expect[number].rstrip(), 'query-text' + label, lambda: 'the query was taken to be %r rather than %r' % (said, expect[number]))
                if number in api_postings:
                    c.check(stats[number][1] == api_postings[number], 'postings' + label, lambda: '%d postings processed for %s rather than %d as by the API' % (stats[number][1], number, api_postings[number]))
            wrong = [x for x in got if not (0 < x[0] <= len(keys)) or keys[x[0] - 1] != x[1]]
            c.check(not wrong, 'key' + label, lambda: 'the key is not that of the document: %s' % wrong[:5])
            if number in api and got != api[number]:
                c.violation('api' + label, 'with %d threads, the results for %r are %s rather than as by the API %s' % (threads, expect[number], got[:8], api[number][:8]))
                break
            if not limited:
                want, postings = exhaustive(lists, terms_of[number], k)
                if number in stats:
                    c.check(stats[number][1] == postings, 'postings-complete' + label, lambda: '%d postings processed for %s rather than %d' % (stats[number][1], expect[number], postings))
                if want is not None:
                    c.tally('results compared with exhaustive scoring')
                    if [(d, s) for d, _, s in got] != want:
                        c.violation('scores' + label, 'with %d threads, the results for %r are %s rather than %s' % (threads, expect[number], [(d, s) for d, _, s in got][:8], want[:8]))
                        break
        c.tally('runs of the tool' + label)
        c.tally('queries answered', len(order))
        c.tally('results', sum(map(len, run.values())))

    if style == 'title':
        lines = c.run([BIN['convert'], 'topics'], ok=(0,)).out.split('\n')
        got = {l.partition(' ')[0]: l.partition(' ')[2].strip().encode('latin-1').decode('utf-8') for l in lines if l.strip()}
        c.check(got == expect and len([l for l in lines if l.strip()]) == len(order), 'trec_to_query', lambda: 'converted to %s rather than %s' % (list(got.items())[:4], list(expect.items())[:4]))
        c.tally('topic files converted')
    c.nontrivial((text, sorted(lists.items()), k))
    c.sample('%d documents, %d terms, %s; %d queries such as %r; %s' % (len(keys), len(lists), codec, len(order), text[:200], options))


def missing(c):
    """Files that are not there, or are empty"""
    r = c.rng
    keys, lists, version, codec = make_index(c)
    options = ['-2'] if version == '2' else []
    what = r.choice(('queries', 'empty', 'blank', 'index', 'k', 'tags'))
    c.write('topics', {'empty': '', 'blank': '\n \n\n', 'tags': '<top>\n</top>\n'}.get(what, '1 ' + latin(sorted(lists)[0]) + '\n'))
    if what == 'index':
        os.unlink(c.path(r.choice(('CIvocab.bin', 'CIpostings.bin', 'CIdoclist.bin'))))
        out = c.run([BIN['tool'], '-q', 'topics'] + options).out
        c.check('Cannot load the index' in out or 'Exception' in out, 'missing:index', lambda: 'a missing file of the index is not reported: ' + out[:500])
    elif what == 'k':
        out = c.run([BIN['tool'], '-q', 'topics', '-k1001'] + options).out
        c.check('larger than maximum' in out, 'missing:k', lambda: 'a k that is too large is not reported: ' + out[:500])
    else:
        out = c.run([BIN['tool'], '-q', 'topics' if what != 'queries' else 'nosuchfile'] + options, ok=(0, 1)).out
        m = re.search(r'^Queries *: (\d+)$', out, re.M)
        if m:
            c.check(int(m.group(1)) == 0, 'missing:queries:' + what, lambda: '%s queries in a file with none' % m.group(1))
            c.check(c.read('ranking.txt') == b'', 'missing:results:' + what, 'there are results although there were no queries')
    c.tally('missing: ' + what)
    c.nontrivial((what, version, codec, sorted(lists.items())))


def run(chk):
    b = Build('asan')
    BIN['tool'] = b.program('JASS_anytime', [REPO + '/anytime/JASS_anytime.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    BIN['api'] = b.program('api_run', [VERIF + '/drivers/api_run.cpp', REPO + '/anytime/JASS_anytime_api.cpp'])
    BIN['write'] = b.program('index_write', [VERIF + '/drivers/index_write.cpp'])
    BIN['convert'] = b.program('trec_to_query', [REPO + '/tools/trec_to_query.cpp'])
    chk.build([b])
    run_cases(chk, [('search', 240, 6000, search), ('missing', 24, 300, missing)])
    return chk.finish(
        rule='a case is a random index and query file, answered by the tool with random options with one and with several threads; every line of the run is checked, and the results are compared with those of the search API, one query '
             'at a time, and (where there is no limit) with exhaustive scoring; distinct_nontrivial counts distinct combinations of query file, index and k',
        assumptions=['the ids of the queries of a file differ', 'a query has at least one word', 'in a TREC topic file each element starts a line'],
        minimum=5000)
