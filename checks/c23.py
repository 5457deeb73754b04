import struct, subprocess
from vbuild import Build, VERIF, REPO
from tools import run_cases
from collections_ import *
import c02

BIN = {}

# stands in for query_heap.h, so that what the exported source does can be seen
STUB_QUERY = '''#pragma once
#include <stdint.h>
#include <stdio.h>
namespace JASS { class query_heap { public: void add_rsv(uint64_t document, uint64_t impact) { printf(" %llu:%llu", (unsigned long long)document, (unsigned long long)impact); } }; }
'''
STUB_VOCABULARY = '''#pragma once
#include "query_heap.h"
struct JASS_ci_vocab { const char *term; void (*method)(JASS::query_heap &q); };
extern JASS_ci_vocab dictionary[];
extern uint64_t dictionary_length;
'''
STUB_MAIN = '''#include <string>
#include <vector>
#include "query_heap.h"
#include "JASS_vocabulary.h"
extern std::vector<std::string> primary_key;
int main() {
JASS::query_heap q;
for (auto &k : primary_key) printf("key %s\\n", k.c_str());
for (uint64_t t = 0; t < dictionary_length; t++) { printf("term %s", dictionary[t].term); dictionary[t].method(q); printf("\\n"); }
return 0; }
'''


def human(text, dictionary=False, atire=False):
    """What JASSv1_to_human printed: term -> [(document from 0, impact)], primary keys"""
    terms, keys, twice = {}, None, []
    lines = text.split('\n')
    if lines and lines[-1] == '': lines.pop()
    if not atire:
        lines = lines[3:]                                   # blank, title, line
    for n, line in enumerate(lines):
        if line == '' and lines[n + 1:n + 2] == ['PRIMARY KEY LIST']:
            keys = lines[n + 3:]
            break
        term, _, rest = line.partition(' ')
        if term in terms: twice.append(term)
        terms[term] = [(int(d), int(i)) for d, i in re.findall(r'<(\d+),(\d+)>', rest)]
        if re.sub(r'<\d+,\d+>', '', rest): twice.append('?' + line[:200])
    return terms, keys, twice


def compare_human(c, label, got, want, keys, expect_keys, twice):
    c.check(not twice, 'human:odd' + label, lambda: 'lines that are odd or twice: %s' % twice[:5])
    if not c.check(set(got) == set(want), 'human:vocabulary' + label, lambda: 'only in the dump: %s, only in the index: %s' % (sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5])):
        return
    for t in want:
        c.evaluation()
        if sorted(got[t]) != sorted(want[t]):
            have, need = collections.Counter(got[t]), collections.Counter(want[t])
            c.violation('human:postings' + label, '%r: in the dump but not in the index %s; in the index but not in the dump %s' % (t, list((have - need).items())[:10], list((need - have).items())[:10]))
            break
    if expect_keys is not None:
        c.check(keys == expect_keys, 'human:keys' + label, lambda: 'primary keys %s rather than %s' % ((keys or [])[:10], expect_keys[:10]))


def dump(c):
    """The dump of an index holds what is in the index, for every codec and version"""
    r = c.rng
    documents = r.choice((1, 2, 7, 8, 9, 30, 200, 255, 256, 257, 1000, 4000))
    keys = [r.choice(('%d', 'doc%d', 'clueweb12-%04d-x', 'D %d')) % d for d in range(documents)]
    top = r.choice((1, 5, 255, 256, 1024))
    want = {}
    for t in words(r, r.choice((1, 5, 40, 150))):
        n = r.choice((1, documents, r.randint(1, documents), min(documents, r.choice((7, 8, 9, 128, 256, 257)))))
        impacts = r.choice(([top], [1, top], range(1, top + 1)))
        want[latin(t)] = sorted((d, r.choice(impacts)) for d in r.sample(range(documents), n))
    c.write('listed', ''.join('key %s\n' % k for k in keys) + ''.join('term %s %s\n' % (t, ' '.join('%d:%d' % (d + 1, i) for d, i in p)) for t, p in want.items()))
    for version, codec in r.sample([(v, k) for v in '12' for k in 'gGDqs' if (v, k) != ('2', 'q')], 2):
        c.run([BIN['write'], version, codec, 'listed'], ok=(0,))
        label = ':v%s-%s' % (version, codec)
        option = (['-2'] if version == '2' else [])
        terms, listed, twice = human(c.run([BIN['human']] + option, ok=(0,)).out)
        compare_human(c, label, terms, want, listed, keys, twice)
        if r.random() < .3:
            terms, listed, twice = human(c.run([BIN['human'], '-A'] + option, ok=(0,)).out, atire=True)
            compare_human(c, label + '-atire', terms, want, listed, None, twice)
        if r.random() < .3:
            terms, listed, twice = human(c.run([BIN['human'], '-d'] + option, ok=(0,)).out)
            c.check(sorted(terms) == sorted(want) and not twice and not any(terms.values()), 'human:dictionary' + label, 'the dictionary differs')
        c.tally('indexes dumped' + label)
    c.tally('postings dumped', sum(len(p) for p in want.values()) * 3)
    c.nontrivial(sorted(want.items()))
    c.sample('%d documents, %d terms with impacts up to %d' % (documents, len(want), top))


def exports(c):
    """All the exports of one run of the indexer"""
    r = c.rng
    keys, texts = c02.collection(c, r.choice((1, 2, 5, 20, 60, 150)))
    c.write('collection', trec(r, texts, keys).encode('utf-8'))
    version = r.choice('12')
    options = ['-I' + version, '-Ib', '-Ic', '-If']
    r.shuffle(options)
    if r.random() < .3: options.append('-A')
    if r.random() < .3: options.append('-tp')
    c.run([BIN['index'], '-f', 'collection'] + options, ok=(0,))
    index = read_dump(c.run([BIN['dump'], version, c.dir], ok=(0,)).out)
    if not c.check(index['end'] and not index['odd'] and not index['twice'], 'exports:index', 'the index cannot be read'):
        return
    c.check(index['keys'] == keys, 'exports:keys-index', lambda: 'primary keys %s' % index['keys'][:10])
    want = {t: postings(s) for t, s in index['terms'].items()}
    if not c.check(all(len(v) == 1 for p in want.values() for v in p.values()), 'exports:posting-twice', 'a posting is in the index twice'):
        return
    want = {t: sorted((d, v[0]) for d, v in p.items()) for t, p in want.items()}
    total = sum(len(p) for p in want.values())

    # the human readable dump
    terms, listed, twice = human(c.run([BIN['human']] + (['-2'] if version == '2' else []), ok=(0,)).out)
    compare_human(c, ':exports', terms, {t: [(d - 1, i) for d, i in p] for t, p in want.items()}, listed, keys, twice)

    # the uncompressed export: segments, each in order of document, of each list in turn, most important first; it has no names
    data, at, lists = c.read('postings.bin'), 0, []
    while at + 4 <= len(data):
        n, = struct.unpack_from('<I', data, at)
        if at + 4 + 4 * n > len(data): break
        lists.append(struct.unpack_from('<%dI' % n, data, at + 4))
        at += 4 + 4 * n
    c.check(at == len(data), 'exports:binary-format', 'the file ends in the middle of a segment')
    segments = collections.Counter(tuple(x - 1 for x in docs) for s in index['terms'].values() for _, docs in s)
    c.check(collections.Counter(lists) == segments, 'exports:binary', lambda: 'segments only in postings.bin %s, only in the index %s' % (
        list((collections.Counter(lists) - segments).items())[:5], list((segments - collections.Counter(lists)).items())[:5]))
    chains = collections.Counter(tuple(tuple(x - 1 for x in docs) for _, docs in s) for s in index['terms'].values())
    at, bad = 0, 0
    by_first = collections.defaultdict(list)
    for chain in chains: by_first[chain[0]].append(chain)
    # each list of the index must be there with its segments together and in order: take the file apart greedily, longest first, as far as it is unambiguous
    if all(len(v) == 1 for v in by_first.values()):
        while at < len(lists):
            chain = by_first.get(lists[at], [None])[0]
            if chain is None or tuple(lists[at:at + len(chain)]) != chain:
                bad = 1
                break
            at += len(chain)
        c.check(not bad, 'exports:binary-order', lambda: 'the segments of a list are not together in order of impact, at segment %d' % at)
        c.tally('binary exports taken apart')
    if BIN.get('bin') and r.random() < .4:
        out = c.run([BIN['bin'], 'postings.bin'], ok=(0,)).out.split('\n')
        c.check(out[0] == 'Using:postings.bin' and [tuple(map(int, l.partition(':')[2].split())) for l in out[1:] if l] == lists and all(int(l.partition(':')[0]) == len(l.partition(':')[2].split()) for l in out[1:] if l),
                'exports:binary-human', 'bin_to_human printed something else than what is in the file')

    # the forward index
    forward, odd = collections.defaultdict(list), []
    for line in c.read('JASS_forward.index').decode('latin-1').split('\n')[:-1]:
        m = re.match(r'^<DOC><DOCNO>(\d+)</DOCID>((?:[^ :]+:\d+ )*)</DOC>$', line)
        if not m or int(m.group(1)) in forward:
            odd.append(line[:200])
            continue
        for pair in m.group(2).split():
            t, _, i = pair.partition(':')
            forward[int(m.group(1))].append((t, int(i)))
    c.check(not odd, 'exports:forward-format', lambda: 'lines that are odd or twice: %s' % odd[:3])
    inverted = collections.defaultdict(list)
    for d, pairs in forward.items():
        for t, i in pairs: inverted[t].append((d, i))
    c.check({t: sorted(p) for t, p in inverted.items()} == want, 'exports:forward', lambda: 'the forward index differs: %s' % (
        [(t, sorted(inverted.get(t, []))[:5], want.get(t, [])[:5]) for t in sorted(set(inverted) | set(want)) if sorted(inverted.get(t, [])) != want.get(t, [])][:3],))

    # the source export, compiled and run
    if total < 20000 and r.random() < .5:
        c.write('stub/query_heap.h', STUB_QUERY)
        c.write('stub/JASS_vocabulary.h', STUB_VOCABULARY)
        c.write('stub/main.cpp', STUB_MAIN)
        p = subprocess.run(['g++', '-w', '-O0', '-std=c++17', '-Istub', '-I.', 'stub/main.cpp', 'JASS_postings.cpp', 'JASS_vocabulary.cpp', 'JASS_primary_keys.cpp', '-o', 'exported'],
                           cwd=c.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if c.check(p.returncode == 0, 'exports:source-compiles', lambda: 'the exported source cannot be compiled: ' + p.stdout.decode('latin-1')[:1500]):
            listed, terms = [], {}
            for line in c.run([c.path('exported')], ok=(0,)).out.split('\n'):
                if line.startswith('key '): listed.append(line[4:])
                elif line.startswith('term '):
                    parts = line[5:].split(' ')
                    terms.setdefault(parts[0], []).extend(tuple(map(int, x.split(':'))) for x in parts[1:])
            c.check(listed == ['-'] + keys, 'exports:source-keys', lambda: 'primary keys %s rather than %s' % (listed[:10], keys[:10]))
            c.check({t: sorted(p) for t, p in terms.items()} == want, 'exports:source', lambda: 'the exported source differs: %s' % (
                [(t, sorted(terms.get(t, []))[:5], want.get(t, [])[:5]) for t in sorted(set(terms) | set(want)) if sorted(terms.get(t, [])) != want.get(t, [])][:3],))
            c.tally('source exports compiled and run')
    c.tally('postings in every export', total)
    c.nontrivial(sorted(want.items()))
    c.sample('%d documents, %d terms, options %s' % (len(keys), len(want), options))


def run(chk):
    b = Build('asan')
    BIN['index'] = b.program('JASS_index', [REPO + '/tools/JASS_index.cpp'])
    BIN['dump'] = b.program('index_dump', [VERIF + '/drivers/index_dump.cpp'])
    BIN['write'] = b.program('index_write', [VERIF + '/drivers/index_write.cpp'])
    BIN['human'] = b.program('JASSv1_to_human', [REPO + '/tools/JASSv1_to_human.cpp'])
    BIN['bin'] = b.program('bin_to_human', [REPO + '/tools/bin_to_human.cpp'], subset=[])
    c02.BIN.update(BIN)
    chk.build([b])
    run_cases(chk, [('exports', 90, 2500, exports), ('dump', 90, 3000, dump)])
    return chk.finish(
        rule='a case is a generated collection indexed once with all the exports, each of which is read back (the source export is compiled and run) and compared with the search index; '
             'or random lists written with three of the codecs, dumped, and compared with what was written; distinct_nontrivial counts distinct collections',
        assumptions=['the binary export holds neither names nor impacts, only the order of the segments', 'the forward index has the documents by number', 'terms and keys do not hold quotes or backslashes'],
        minimum=10000)
