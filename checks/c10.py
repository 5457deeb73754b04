import os
from vbuild import Build, VERIF, REPO
import ucd

SOURCES = ['parser.cpp', 'parser_query.cpp', 'unicode.cpp', 'ascii.cpp', 'asserts.cpp', 'allocator_pool.cpp', 'allocator_memory.cpp', 'unittest_data.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c10_tokens', [VERIF + '/drivers/c10_tokens.cpp'], subset=SOURCES)
    chk.build([b])
    path = os.path.join(chk.scratch, 'ucd.bin')
    ucd.write(path)
    chk.run_driver(prog, env={'VF_UCD': path})
    return chk.finish(
        rule='an evaluation is one text tokenised as a document or as a query (or as raw words) and compared with a reference tokeniser over the Unicode data files: random texts of words, digits, '
             'scripts, compatibility characters, separators and malformed bytes; every code point between letters, between digits, alone, and first and last in a text; tokens around the limit on '
             'length; up to 32767 words in a query. A document ends where its memory ends',
        assumptions=['texts have no <', 'raw queries have no zero bytes', 'a byte that is not part of well-formed UTF-8 is a separator', 'a query has no more than 65535 terms, the documented limit'],
        minimum=10000)
