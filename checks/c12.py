from vbuild import Build, VERIF, REPO

SOURCES = ['instream_document_trec.cpp', 'instream_document_fasta.cpp', 'instream_document_warc.cpp', 'instream_document_unicoil_json.cpp', 'instream_directory_iterator.cpp',
           'instream_file.cpp', 'instream_memory.cpp', 'instream_deflate.cpp', 'file.cpp', 'ascii.cpp', 'asserts.cpp', 'allocator_pool.cpp', 'allocator_memory.cpp', 'unittest_data.cpp', 'unicode.cpp', 'parser.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c12_streams', [VERIF + '/drivers/c12_streams.cpp'], subset=SOURCES, libs=['-lz'])
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='an evaluation is one record (or the end of input) of one collection read through one stream: (key, contents) in order, against the records the collection was made of; '
             'for collections that were cut or changed, against the definition of a record applied to the whole file; bytes come in random chunks, from memory, files, compressed files (of one or more members, '
             'in chunks) and directories; buffers from just large enough for the longest record; after the end three more reads must be the end too',
        assumptions=['files of a collection in a directory end with a new line', 'in a WARC header the WARC-TREC-ID comes before the Content-Length', 'JSON has one document per line, its members in the documented order and spacing', 'a source returns 0 bytes only at its end'],
        minimum=100000)
