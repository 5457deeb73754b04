from vbuild import Build, VERIF, REPO

SOURCES = ['file.cpp', 'channel_file.cpp', 'channel_buffer.cpp', 'channel_trec.cpp', 'instream_file.cpp', 'instream_memory.cpp', 'instream_deflate.cpp',
           'compress_general_zlib.cpp', 'compress_general_zstd.cpp', 'checksum.cpp', 'parser.cpp', 'unicode.cpp', 'ascii.cpp', 'asserts.cpp', 'maths.cpp',
           'allocator_pool.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c18_streams', [VERIF + '/drivers/c18_streams.cpp'], subset=SOURCES)
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is one history on one object: up to 60 writes, reads, seeks on a file with a buffer of 1 byte to 10 MB; a file written and read whole, '
             'mapped and in pieces; a channel written in up to 3 sessions and read as lines and blocks; a compressed stream delivered in random pieces, cut '
             'short or damaged; a buffer compressed and decompressed into exact, too small and cut buffers; a topic file. An evaluation is one read compared with what was written',
        assumptions=['a read directly after a write on the same file (or the reverse) is preceded by a seek, as C requires',
                     'a TREC topic has its number on one line and its fields on others, a ClueWeb topic tag is on a line of its own'],
        minimum=8000)
