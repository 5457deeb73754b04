"""Collections of documents, and what an index of one should hold."""
import collections, math, re, struct

WORDS = ('the of and to in is you that it he was for on are as with his they at be this have from or one had by word but not what all were we when your '
         'can said there use an each which she do how their if will up other about out many then them these so some her would make like him into time has look '
         'two more write go see number no way could people my than first water been call who oil its now find long down day did get come made may part '
         'running relational conditionally vietnamization hopping agreed plastered motoring happy sky caresses ponies ties feudalism triplicate').split()


def words(r, size):
    """A vocabulary: some ordinary words, some made up, some numbers, some not ASCII"""
    out = set()
    while len(out) < size:
        k = r.random()
        if k < .4: w = r.choice(WORDS)
        elif k < .8: w = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(r.choice((1, 2, 3, 5, 8, 12, 30, 100))))
        elif k < .95: w = str(r.randrange(10 ** r.choice((1, 2, 4, 9, 18))))
        else: w = ''.join(chr(r.choice((0x3b1, 0x430, 0x5d0)) + r.randrange(16)) for _ in range(r.randint(1, 6))).replace('ς', 'σ').replace('й', 'и')
        out.add(w)
    return sorted(out)


def tokens(text):
    """The words and numbers of ordinary text (no tags)"""
    return [t.lower() for t in re.findall(r'[0-9]+|[^\W\d_]+', text)]


def zipf(r, vocabulary, skew):
    n = len(vocabulary)
    return vocabulary[min(n - 1, int(n * r.random() ** skew))]


class Expected:
    def __init__(self):
        self.keys = []
        self.tf = collections.defaultdict(collections.Counter)     # term -> document (from 1) -> frequency
        self.lengths = []

    def add(self, key, terms):
        self.keys.append(key)
        self.lengths.append(len(terms))
        for t in terms:
            self.tf[t][len(self.keys)] += 1

    def impacts(self, extra=0, quantum=1024, total=None, plain=False):
        """term -> document -> (lowest, highest) acceptable impact: BM25 (or plain frequencies) quantised uniformly over the range of the scores"""
        n = len(self.keys)
        lengths = [l + extra for l in self.lengths]
        mean = sum(lengths) / n if n else 1
        f32 = lambda x: struct.unpack('f', struct.pack('f', x))[0]
        scores, low, high = {}, math.inf, -math.inf
        correction = [f32(0.9 * (0.6 + 0.4 * l / mean)) if mean else 0 for l in lengths]
        for t, docs in self.tf.items():
            idf = math.log((total or n) / len(docs))
            for d, tf in docs.items():
                tf = min(tf, quantum)
                s = tf if plain else idf * (tf * 1.9 / (tf + correction[d - 1]))
                scores[t, d] = s
                low, high = min(low, s), max(high, s)
        out = collections.defaultdict(dict)
        for (t, d), s in scores.items():
            if high - low < 1e-9:
                out[t][d] = (1, quantum)
            else:
                x = (s - low) / (high - low) * (quantum - 1)
                out[t][d] = (max(1, math.floor(x - .01) + 1), min(quantum, math.floor(x + .01) + 1))
        return out


def read_dump(out):
    """What index_dump wrote"""
    d = {'codec': None, 'documents': None, 'keys': [], 'terms': {}, 'order': [], 'lookup': None, 'end': False, 'twice': [], 'odd': []}
    for line in out.split('\n'):
        what, _, rest = line.partition(' ')
        if what == 'codec': d['codec'] = rest
        elif what == 'documents': d['documents'] = int(rest)
        elif what == 'key': d['keys'].append(rest)
        elif what == 'lookup': d['lookup'] = rest
        elif what == 'end': d['end'] = True
        elif what == 'unreadable': d['odd'].append(line)
        elif what == 'term':
            term, _, lists = rest.partition('\t')
            if term in d['terms']: d['twice'].append(term)
            segments = []
            for s in lists.split(';')[:-1]:
                if s.startswith('!'):
                    d['odd'].append('%s: %s' % (term, s))
                    continue
                impact, _, docs = s.partition(':')
                segments.append((int(impact), [int(x) for x in docs.split(',')] if docs else []))
            d['terms'][term] = segments
            d['order'].append(term)
    # documents are numbered from 1 here; in an index, from 0 unless its list of keys starts with a place holder
    base = 0 if d['keys'][:1] == ['-'] else 1
    d['keys'] = d['keys'][1 - base:]
    for segments in d['terms'].values():
        segments[:] = [(impact, [x + base for x in docs]) for impact, docs in segments]
    return d


def postings(segments):
    """document -> list of the impacts it is stored with"""
    out = collections.defaultdict(list)
    for impact, docs in segments:
        for x in docs:
            out[x].append(impact)
    return out


def check_dump(c, dump, keys, terms, label='', ordered=True):
    """terms: term -> document -> (low, high).  Terms are as latin-1 strings of bytes."""
    k = lambda s: label + s
    if not c.check(dump['end'] and not dump['odd'], k('index:reading'), lambda: 'the index cannot be read back: %s' % (dump['odd'][:5],)):
        return False
    c.check(dump['documents'] == len(keys), k('index:document-count'), lambda: '%s documents rather than %d' % (dump['documents'], len(keys)))
    c.check(dump['keys'] == keys, k('index:keys'), lambda: 'primary keys %s rather than %s' % (dump['keys'][:20], keys[:20]))
    c.check(not dump['twice'], k('index:term-twice'), lambda: 'in the vocabulary twice: %s' % dump['twice'][:5])
    have, want = set(dump['terms']), set(terms)
    c.check(have == want, k('index:vocabulary'), lambda: 'only in the index: %s; only in the documents: %s' % (sorted(have - want)[:10], sorted(want - have)[:10]))
    c.check(dump['lookup'] == 'OK', k('index:lookup'), lambda: dump['lookup'])
    bad = 0
    for t in have & want:
        got, expect = postings(dump['terms'][t]), terms[t]
        c.evaluation(len(expect))
        if any(len(v) != 1 for v in got.values()):
            c.violation(k('index:posting-twice'), '%r: %s' % (t, {d: v for d, v in got.items() if len(v) != 1})); bad += 1
        elif set(got) != set(expect):
            c.violation(k('index:postings'), '%r is in documents %s rather than %s' % (t, sorted(got)[:40], sorted(expect)[:40])); bad += 1
        else:
            wrong = {d: (v[0], expect[d]) for d, v in got.items() if not expect[d][0] <= v[0] <= expect[d][1]}
            if wrong:
                c.violation(k('index:impacts'), '%r: document: (impact, should be in) %s' % (t, dict(list(wrong.items())[:10]))); bad += 1
        impacts = [i for i, _ in dump['terms'][t]]
        if ordered and (impacts != sorted(set(impacts), reverse=True)):
            c.violation(k('index:impact-order'), '%r: segments with impacts %s' % (t, impacts[:50])); bad += 1
        if any(x != sorted(x) for _, x in dump['terms'][t]):
            c.violation(k('index:document-order'), '%r: a segment is not in order of document' % t); bad += 1
        if bad > 5:
            break
    c.tally(k('postings compared'), sum(len(v) for v in terms.values()))
    return bad == 0


def trec(r, texts, keys):
    out = []
    for key, text in zip(keys, texts):
        out.append('<DOC>%s<DOCNO>%s%s%s</DOCNO>%s%s</DOC>\n' % (r.choice(('\n', '')), r.choice(('', ' ')), key, r.choice(('', ' ')), r.choice(('\n', '')), text))
    return ''.join(out)


def latin(s):
    return s.encode('utf-8').decode('latin-1')
