import gzip, json
from vbuild import Build, VERIF, REPO
from tools import run_cases
from collections_ import *

BIN = {}


def collection(c, documents):
    """keys and texts"""
    r = c.rng
    vocabulary = words(r, r.choice((1, 3, 20, 200, 2000)))
    skew = r.choice((1, 2, 5))
    style = r.random()
    keys, texts, everywhere = [], [], r.choice(vocabulary) if r.random() < .3 else None
    punctuation = [' ', ' ', ' ', '\n', ', ', '. ', '-', '  ', '\t', '; ', ' (', ') ']
    for d in range(documents):
        if style < .1: n = 1
        elif style < .2: n = r.choice((0, 1, 500))
        else: n = r.choice((0, 3, 10, 40, 40, 200))
        out = []
        for _ in range(n):
            w = zipf(r, vocabulary, skew)
            out.append(w.upper() if w.isascii() and r.random() < .1 else w)
            if r.random() < .05: out.append(r.choice(('<b>', '</b>', '<p class="x y">', '<!-- not this -->', '<BR/>')))
        if everywhere: out.append(everywhere)
        if r.random() < .02:                          # around where a frequency cannot grow any more, and where blocks of memory fill
            out += [r.choice(vocabulary)] * r.choice((254, 255, 256, 257, 1023, 1024, 1025, 1026, 3000))
        texts.append(''.join(x + r.choice(punctuation) for x in out))
        if d and r.random() < .05:                    # a document without a single word (an index always has one term)
            texts[-1] = r.choice(('', ' ', '<b></b>', '. -- ;\n'))
            keys.append(r.choice('.+*') * (1 + d % 37))
            continue
        keys.append(r.choice(('WSJ870324-%04d', '%d', 'doc %d', 'AP%d.x', 'clueweb-en-%d', '%08d')) % d)
    return keys, texts


def strip(text):
    return re.sub(r'<[^>]*>', ' ', text)


def fill(c, keys, texts, stemmed):
    e = Expected()
    listed = [tokens(k) + tokens(strip(t)) for k, t in zip(keys, texts)]
    if stemmed:
        distinct = sorted({t for l in listed for t in l if t.isalpha() and len(t.encode()) > 2})
        stems = {}
        for i in range(0, len(distinct), 2000):
            got = c.run([BIN['dump'], 'stem'] + distinct[i:i + 2000], ok=(0,)).raw.decode('utf-8', 'surrogateescape').split('\n')
            stems.update(zip(distinct[i:i + 2000], got))
        listed = [[stems.get(t, t) for t in l] for l in listed]
        c.tally('words that were stemmed to something else', sum(a != b for a, b in stems.items()))
    for k, l in zip(keys, listed):
        e.add(k, [t.encode('utf-8', 'surrogateescape').decode('latin-1') for t in l])
    return e


def verify(c, e, terms, version, out, documents=None):
    m = re.search(r'Documents:(\d+)\n', out)
    c.check(m and int(m.group(1)) == len(e.keys), 'report:documents', lambda: 'reported %s rather than %d documents' % (m and m.group(1), len(e.keys)))
    m = re.search(r'Terms    :(\d+)', out)
    c.check(m and int(m.group(1)) == sum(e.lengths), 'report:terms', lambda: 'reported %s rather than %d terms' % (m and m.group(1), sum(e.lengths)))
    dump = read_dump(c.run([BIN['dump'], version, c.dir], ok=(0,)).out)
    check_dump(c, dump, e.keys, terms)
    c.tally('documents', len(e.keys))
    c.tally('terms', len(terms))
    if len(e.keys) > 1:
        c.nontrivial((e.keys, sorted((t, sorted(v.items())) for t, v in list(e.tf.items())[:200])))


def text(c):
    r = c.rng
    documents = r.choice((1, 2, 2, 5, 20, 60, 130, 300) if c.chk.quick() else (1, 2, 5, 20, 60, 130, 300, 1000, 3000))
    keys, texts = collection(c, documents)
    c.write('collection', trec(r, texts, keys).encode('utf-8'))
    options = []
    stemmed, atire = r.random() < .3, r.random() < .3
    if stemmed: options.append(r.choice(('-tp', '--term_steming_porter')))
    if atire: options.append('-A')
    if r.random() < .5: options.append('-dt')
    if r.random() < .5: options.append('-q')
    if r.random() < .3: options += ['-N', '7']
    version = r.choice('12')
    options.append('-I' + version)
    r.shuffle(options) if '-N' not in options else None
    e = fill(c, keys, texts, stemmed)
    got = c.run([BIN['index'], '-f', 'collection'] + options, ok=(0,))
    verify(c, e, e.impacts(extra=1 if atire else 0), version, got.out)
    c.sample('%d documents, %d terms, options %s' % (len(keys), len(e.tf), options))
    if any(v > 1024 for t in e.tf.values() for v in t.values()):
        c.tally('collections with a frequency above 1024')


def unicoil(c):
    r = c.rng
    e = Expected()
    vocabulary = words(r, r.choice((5, 50, 500))) + ['##ing', '[SEP]', '?', '&', "'", '...', 'a b']
    lines, weights = [], collections.defaultdict(dict)
    odd = r.random() < .3
    for d in range(r.choice((1, 2, 10, 60, 200))):
        key = r.choice(('%d', 'msmarco_passage_%d', 'D%d')) % d
        vector = {}
        for _ in range(r.choice((1, 3, 20, 60))):
            t = zipf(r, vocabulary, 2)
            vector[t] = r.choice((1, 254, 255, 256, 1023, 1024)) if r.random() < .1 else r.choice((1025, 5000, 65535)) if odd and r.random() < .1 else r.randint(1, 120)
        e.keys.append(key)
        e.lengths.append(len(vector))
        for t, w in vector.items():
            e.tf[latin(t)][len(e.keys)] = w
            w = min(w, 1024)
            weights[latin(t)][len(e.keys)] = (w, w)
        lines.append(json.dumps({'id': key, 'contents': ' '.join(r.choice(WORDS) for _ in range(r.randint(0, 8))), 'vector': vector}, ensure_ascii=False))
    data = ('\n'.join(lines) + '\n').encode('utf-8')
    kind = r.choice(('gz', 'directory', 'directory'))
    if kind == 'gz':
        c.write('docs.json.gz', gzip.compress(data))
        name = 'docs.json.gz'
    else:
        # the order of the files is the order of the directory, so only one file
        c.write('docs/part.json' + r.choice(('', '.gz')), b'')
        import os
        f = os.listdir(c.path('docs'))[0]
        c.write('docs/' + f, gzip.compress(data) if f.endswith('.gz') else data)
        name = 'docs'
    version = r.choice('12')
    got = c.run([BIN['index'], '-f', name, '-djc', '-I' + version], ok=(0,))
    verify(c, e, weights, version, got.out)
    c.tally('collections of forward indexes: ' + kind)


def fasta(c):
    r = c.rng
    e = Expected()
    k = r.choice((1, 2, 3, 5, 8, 12, 20, 31))
    out = []
    for d in range(r.choice((1, 2, 8, 40))):
        key = 'NR_%06d.%d' % (r.randrange(10 ** 6), d)
        title = r.choice(('', ' Escherichia coli', ' 16S ribosomal RNA, partial sequence', ' strain 7'))
        base = ''.join(r.choice('ACGT') for _ in range(r.choice((4, 30, 300))))
        dna = base * r.choice((1, 1, 3)) if r.random() < .9 else base[:10] + 'N' + base[10:]
        width = r.choice((10 ** 6, 70, 80))
        out.append('>' + key + title + '\n' + ''.join(dna[i:i + width] + '\n' for i in range(0, len(dna), width)))
        terms = tokens('>' + key + title)
        for run in dna.split('N'):
            terms += [run[i:i + k].lower() for i in range(len(run) - k + 1)]
        e.add('>' + key + title, [latin(t) for t in terms])
    c.write('sequences', ''.join(out))
    version = r.choice('12')
    got = c.run([BIN['index'], '-f', 'sequences', '-IF', str(k), '-I' + version], ok=(0,))
    verify(c, e, e.impacts(), version, got.out)


def run(chk):
    b = Build('asan')
    BIN['index'] = b.program('JASS_index', [REPO + '/tools/JASS_index.cpp'])
    BIN['dump'] = b.program('index_dump', [VERIF + '/drivers/index_dump.cpp'])
    chk.build([b])
    run_cases(chk, [('text', 220, 4000, text), ('unicoil', 90, 1500, unicoil), ('fasta', 60, 1000, fasta)])
    return chk.finish(
        rule='a case is a generated collection (TREC text, uniCOIL forward index, or FASTA), indexed by JASS_index with random options, whose index is read back '
             'and compared, posting by posting, with an inversion of the same collection made in Python; distinct_nontrivial counts distinct collections of two or more documents',
        assumptions=['a term frequency (or weight) above 1024 counts as 1024, the largest impact', 'the impact may differ where rounding could',
                     'text and tags are well formed, forward indexes are JSON as Python and Anserini write it; weights are positive', 'the index is read with the library\'s reader (C03 is about the reader)'],
        minimum=10000)
