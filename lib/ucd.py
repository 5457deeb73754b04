"""
The reference for Unicode: read from the same data files the library is built from, but by this reader, written from
the descriptions in UAX 44 and the library's documentation.
"""
import os, struct
from vbuild import REPO

NAMES = ['isalpha', 'isalnum', 'isupper', 'islower', 'isdigit', 'ispunct', 'isuspace', 'isspace', 'ismark', 'issymbol',
         'iscntrl', 'isgraph', 'isxdigit', 'isxmlnamestartchar', 'isxmlnamechar']
MAX = 0x10FFFF


def read():
    base = os.path.join(REPO, 'external', 'Unicode')
    category = {}
    mapping = {}
    first = None
    for line in open(os.path.join(base, 'UnicodeData.txt'), encoding='utf-8'):
        field = line.rstrip('\n').split(';')
        if len(field) < 6:
            continue
        cp = int(field[0], 16)
        if field[1].endswith(', First>'):
            first = cp
        elif field[1].endswith(', Last>'):
            for c in range(first, cp + 1):
                category[c] = field[2]
        else:
            category[cp] = field[2]
        if field[5]:
            parts = field[5].split()
            if parts[0].startswith('<'):
                parts = parts[1:]
            mapping[cp] = [int(p, 16) for p in parts]
    prop = {}
    for line in open(os.path.join(base, 'PropList.txt'), encoding='utf-8'):
        line = line.split('#')[0].strip()
        if not line:
            continue
        where, name = [x.strip() for x in line.split(';')]
        a, _, b = where.partition('..')
        prop.setdefault(name, set()).update(range(int(a, 16), int(b or a, 16) + 1))
    fold = {}
    for line in open(os.path.join(base, 'CaseFolding.txt'), encoding='utf-8'):
        line = line.split('#')[0].strip()
        if not line:
            continue
        field = [x.strip() for x in line.split(';')]
        if field[1] in 'CF':
            fold[int(field[0], 16)] = [int(x, 16) for x in field[2].split()]
    return category, mapping, prop, fold


def classes(category, prop):
    get = lambda n: prop.get(n, set())
    of = lambda *cats: {c for c, k in category.items() if k in cats}
    starts = lambda letter: {c for c, k in category.items() if k[0] == letter}
    upper = of('Lu') | get('Other_Uppercase')
    lower = of('Ll') | get('Other_Lowercase')
    alpha = upper | lower | of('Lt', 'Lm', 'Lo', 'Nl') | get('Other_Alphabetic')
    digit = starts('N')
    space = of('Zs')
    start = set()
    for a, b in [(0x3A, 0x3A), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
                 (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)]:
        start |= set(range(a, b + 1))
    name = start | {0x2D, 0x2E, 0xB7} | set(range(0x30, 0x3A)) | set(range(0x300, 0x370)) | {0x203F, 0x2040}
    return [alpha, alpha | digit, upper, lower, digit, starts('P') | get('Dash') | get('Terminal_Punctuation'), space,
            space | of('Zl', 'Zp') | set(range(9, 14)) | {0x85}, starts('M'), starts('S'), of('Cc'),
            starts('L') | starts('M') | starts('N') | starts('P') | starts('S') | space, get('Hex_Digit') | get('ASCII_Hex_Digit'), start, name]


def folding(category, mapping, prop, fold):
    """NFKD by the mappings of UnicodeData.txt, then drop all but letters and digits, then case fold (C + F)"""
    every = classes(category, prop)
    alnum = every[1]

    def expand(cp):
        if cp not in mapping:
            return [cp]
        return [y for x in mapping[cp] for y in expand(x)]

    def table(cp):
        out = []
        for c in expand(cp):
            out += [x for x in fold.get(c, [c]) if x in alnum or c == 0x20]
        while out and out[0] == 0x20:
            out.pop(0)
        while out and out[-1] == 0x20:
            out.pop()
        return out
    return table


def write(path):
    category, mapping, prop, fold = read()
    every = classes(category, prop)
    table = folding(category, mapping, prop, fold)
    flags = [0] * (MAX + 1)
    for bit, members in enumerate(every):
        for c in members:
            flags[c] |= 1 << bit
    for c in category:
        flags[c] |= 1 << 15                                      # assigned
    out = bytearray()
    for cp in range(MAX + 1):
        f = table(cp)
        out += struct.pack('<HB', flags[cp], len(f))
        for x in f:
            out += struct.pack('<I', x)
    open(path, 'wb').write(out)
    return dict(assigned=len(category), mappings=len(mapping), folds=len(fold), letters=len(every[0]), digits=len(every[4]))
