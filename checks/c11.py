import os
from vbuild import Build, VERIF, REPO
import ucd

SOURCES = ['parser.cpp', 'parser_fasta.cpp', 'parser_unicoil_json.cpp', 'unicode.cpp', 'ascii.cpp', 'asserts.cpp', 'allocator_pool.cpp', 'allocator_memory.cpp', 'unittest_data.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c11_parse', [VERIF + '/drivers/c11_parse.cpp'], subset=SOURCES)
    chk.build([b])
    path = os.path.join(chk.scratch, 'ucd.bin')
    ucd.write(path)
    chk.run_driver(prog, env={'VF_UCD': path})
    return chk.finish(
        rule='an evaluation is one parse of one document: (a) random well-formed mark-up and text compared token by token with what the generator put in it, (b) damaged, cut and random bytes; '
             'each document is parsed in memory that ends where it does and again followed by eight different continuations by a parser used for earlier documents, and must give the same tokens each time, '
             'at most one per byte, none longer than the limit, and the tokens of the text before the first < unchanged; (c) FASTA sequences against all k-mers of all runs of bases; '
             '(d) term weights in JSON, whole and cut short',
        assumptions=['well-formed mark-up as in the XML recommendation, definitions without an internal subset', 'JSON weights are integers that are not negative'],
        minimum=100000)
