import struct
from vbuild import Build, VERIF, REPO
from tools import run_cases
from collections_ import *

BIN = {}


class Writer:
    """Protocol buffers, as any correct encoder might write them"""
    def __init__(self, r):
        self.r = r
        self.shuffled = r.random() < .2         # fields may be in any order
        self.zeros = r.random() < .3            # a zero may be written or left out
        self.padded = r.random() < .1           # a number may be written in more bytes than it needs

    def varint(self, n):
        out = bytearray()
        while n >= 128:
            out.append(n & 127 | 128)
            n >>= 7
        out.append(n)
        if self.padded and self.r.random() < .2 and len(out) < 9:
            out[-1] |= 128
            out.append(0)
        return bytes(out)

    def number(self, field, n):
        return b'' if n == 0 and not self.zeros else bytes([field << 3]) + self.varint(n)

    def blob(self, field, data):
        return b'' if not data and not self.zeros else bytes([field << 3 | 2]) + self.varint(len(data)) + data

    def double(self, field, x):
        return bytes([field << 3 | 1]) + struct.pack('<d', x)

    def message(self, fields, ordered=None):
        """those in ordered stay in order among themselves"""
        if self.shuffled:
            self.r.shuffle(fields)
        if ordered:
            at = self.r.randrange(len(fields) + 1) if self.shuffled else len(fields)
            fields = fields[:at] + ordered + fields[at:]
        return b''.join(fields)

    def delimited(self, data):
        return self.varint(len(data)) + data


def make(c, large=False):
    r = c.rng
    e = Expected()
    documents = r.choice((1, 2, 10, 100, 1000, 5000) if not large else (20000, 70000, 300000))
    vocabulary = words(r, r.choice((1, 5, 50, 400) if not large else (3, 6)))
    vocabulary += [v for v in ('##s', 'a b', '...', "it's", 'C++', 'e\u0301', '\U0001F600', 'x' * 300) if r.random() < .2]
    r.shuffle(vocabulary)
    style = r.choice(('count', 'count', 'impact', 'weight'))
    high = {'count': 20, 'impact': r.choice((1, 3, 60, 255, 256)), 'weight': r.choice((1000, 1024, 1025, 40000, 70000, 2 ** 31 - 1))}[style]
    for d in range(documents):
        e.keys.append(r.choice(('%d', 'doc%d', 'LA%06d-1', 'http://example.com/a b/%d')) % d)
        e.lengths.append(r.choice((0, 1, 10, 100, 1000)) if r.random() < .5 else r.randrange(300))
    for t in vocabulary:
        k = r.random()
        if k < .1: n = documents
        elif k < .2: n = min(documents, r.choice((127, 128, 129, 255, 256, 257)))
        else: n = min(documents, int(documents ** r.random()) + r.randrange(2))
        n = max(n, 1)
        ids = range(r.randrange(documents - n + 1), documents)[:n] if r.random() < .2 else sorted(r.sample(range(documents), n))
        for d in ids:
            e.tf[latin(t)][d + 1] = r.choice((1, high, r.randint(1, high))) if style != 'count' else min(int(1 / (r.random() + 1e-6)) + 1, 10 ** 6)
    w = Writer(r)
    total = documents if r.random() < .7 else documents + r.randint(1, 3 * documents)
    order = list(vocabulary)
    lists = []
    for t in order:
        last, pairs = 0, []
        for d, tf in sorted(e.tf[latin(t)].items()):
            pairs.append(w.blob(4, w.message([w.number(1, d - 1 - last), w.number(2, tf)])))
            last = d - 1
        p = e.tf[latin(t)]
        lists.append(w.delimited(w.message([w.blob(1, t.encode()), w.number(2, len(p)), w.number(3, sum(p.values()))], pairs)))
    docs = [w.delimited(w.message([w.number(1, d), w.blob(2, e.keys[d].encode()), w.number(3, e.lengths[d])])) for d in range(documents)]
    header = w.delimited(w.message([w.number(1, 1), w.number(2, len(lists)), w.number(3, documents), w.number(4, len(lists) + r.choice((0, 0, 1000))), w.number(5, total),
                                    w.number(6, sum(e.lengths)), w.double(7, sum(e.lengths) / documents), w.blob(8, r.choice((b'', b'made by a test', b'x' * 200)))]))
    c.write('index.ciff', header + b''.join(lists) + b''.join(docs))
    return e, total, style


def convert(c, large=False):
    r = c.rng
    e, total, style = make(c, large)
    mode = r.choice(('bm25', 'passthrough', 'scale'))
    versions = ['1', '2'] if r.random() < .5 else [r.choice('12')]
    if mode == 'bm25':
        if sum(e.lengths) == 0: e.lengths[0] = 0
        terms = e.impacts(total=total) if sum(e.lengths) else None
    elif mode == 'scale':
        terms = e.impacts(plain=True)
    else:
        terms = {t: {d: (min(x, 1024),) * 2 for d, x in docs.items()} for t, docs in e.tf.items()}
    if terms is None:                                                   # no lengths, no BM25
        return
    seen = []
    for version in versions:
        options = {'bm25': [], 'passthrough': ['-passthrough'], 'scale': ['-scalepassthrough']}[mode] + (['-2'] if version == '2' else [])
        r.shuffle(options)
        c.run([BIN['ciff'], 'index.ciff'] + options, ok=(0,))
        dump = read_dump(c.run([BIN['dump'], version, c.dir], ok=(0,)).out)
        check_dump(c, dump, e.keys, terms)
        seen.append((dump['keys'], dump['terms']))
        c.tally('%s, version %s' % (mode, version))
    if len(seen) == 2:
        c.check(seen[0] == seen[1], 'versions-differ', 'the version 1 and the version 2 index differ')
    c.tally('frequencies: ' + style)
    if total > len(e.keys): c.tally('files with more documents in the collection than in the file')
    c.nontrivial((len(e.keys), sorted((t, len(v), sum(v.values())) for t, v in e.tf.items())))
    c.sample('%d documents (of %d), %d terms, frequencies as %s, %s' % (len(e.keys), total, len(e.tf), style, mode))


def run(chk):
    b = Build('asan')
    BIN['ciff'] = b.program('ciff_to_JASS', [REPO + '/tools/ciff_to_JASS.cpp'])
    BIN['dump'] = b.program('index_dump', [VERIF + '/drivers/index_dump.cpp'])
    chk.build([b])
    run_cases(chk, [('convert', 180, 4000, convert), ('large', 5, 60, lambda c: convert(c, True))])
    return chk.finish(
        rule='a case is a CIFF file of random lists written by an encoder of its own (fields in any order, zeros left out or not), converted by ciff_to_JASS with each '
             'scoring and version, read back, and compared with the lists posting by posting; distinct_nontrivial counts distinct files',
        assumptions=['a frequency above 1024 counts as 1024, the largest impact', 'the impact may differ where rounding could', 'files are well formed, documents are in order, '
                     'and lists hold at least one posting'],
        minimum=10000)
