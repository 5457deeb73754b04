from vbuild import Build, VERIF, REPO

SOURCES = ['asserts.cpp']


def run(chk):
    b = Build('asan')
    prog = b.program('c20_commandline', [VERIF + '/drivers/c20_commandline.cpp'], subset=SOURCES)
    chk.build([b])
    chk.run_driver(prog)
    return chk.finish(
        rule='a case is a table of 14 options (every supported type, in three orders of declaration) with random names many of which start with one another, and a '
             'command line of up to 12 options with attached or separate values, values that do not fit, an unknown option or a missing value; an evaluation is one '
             'command line parsed, with every variable, the result and the message compared',
        assumptions=['where a name with its value attached is also another option, or starts with a longer one, the meaning is not specified and is not tried',
                     'whether text that is not a number is an error for an integer is not specified'],
        minimum=20000)
