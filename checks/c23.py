from common import *
import itertools, re, struct
from fractions import Fraction

CH = int(os.environ.get('CH', 40))
M64 = 2**64 - 1
RANK = [('int', 31), ('unsigned', 32), ('long', 31), ('unsigned long', 32), ('long long', 63), ('unsigned long long', 64)]
GEN = {'int': 1, 'unsigned': 2, 'long': 1, 'unsigned long': 2, 'long long': 5, 'unsigned long long': 6}
PRE = '''#define T(x) _Generic((x), int: 1, unsigned: 2, long long: 5, unsigned long long: 6, float: 10, double: 11, default: 99)
'''


def int_type(v, dec, suf):
    s = suf.lower()
    cand = {'': ['int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long'], 'u': ['unsigned', 'unsigned long', 'unsigned long long'], 'l': ['long', 'unsigned long', 'long long', 'unsigned long long'],
            'ul': ['unsigned long', 'unsigned long long'], 'll': ['long long', 'unsigned long long'], 'ull': ['unsigned long long']}[{'lu': 'ul', 'llu': 'ull'}.get(s, s)]
    bits = dict(RANK)
    for c in cand:
        if dec and 'u' not in s and 'unsigned' in c:
            continue
        if v < 1 << bits[c]:
            return c
    return None


def digits(v, b):
    D = '0123456789abcdef'
    s = ''
    while True:
        s = D[v % b] + s
        v //= b
        if not v:
            return s


def int_items(th):
    vals = set(range(0, 66)) | {100, 127, 128, 255, 256, 511, 512, 999, 1000, 1001}
    for k in range(1, 65):
        vals |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    for k in range(1, 20):
        vals |= {10**k - 1, 10**k, 10**k + 1}
    vals |= {0x123456789abcdef0, 0xfedcba9876543210, 0xdeadbeef, 0xcafebabe12, 0xabcdef, 12345678901234567890, 0o1234567, 0o7654321076543210}
    vals = sorted(v for v in vals if v <= M64)
    SUF = ['', 'u', 'U', 'l', 'L', 'ul', 'uL', 'Ul', 'UL', 'lu', 'LU', 'll', 'LL', 'ull', 'uLL', 'ULL', 'llu', 'LLU', 'Ull', 'LLu']
    MS = {'i8': 8, 'ui8': 8, 'i16': 16, 'UI16': 16, 'i32': 32, 'ui32': 32, 'i64': 64, 'I64': 64, 'ui64': 64}
    rows = []
    for v in vals:
        forms = [(str(v), 1), ('0x' + digits(v, 16), 0), ('0X' + digits(v, 16).upper(), 0), ('0' + digits(v, 8), 0), ('0b' + digits(v, 2), 0), ('0B' + digits(v, 2), 0), ('0x00' + digits(v, 16), 0), ('000' + digits(v, 8), 0), ('0o' + digits(v, 8), 0)]
        # digit separators after every position of the digits
        for base, dec in [(str(v), 1), (digits(v, 16), 0), (digits(v, 2), 0), ('0' + digits(v, 8), 0)]:
            pre = {1: ''}.get(dec, '0x' if base == digits(v, 16) else '0b' if base == digits(v, 2) else '')
            if len(base) > 3:
                for i in ([1, 3, len(base) - 1] if not th else range(1, len(base))):
                    if pre or base[0] != '0' or i > 1 or dec:
                        if not (pre == '' and base[0] == '0' and i == 1):
                            forms.append((pre + base[:i] + "'" + base[i:], dec))
        for f, dec in forms:
            if f[:2] == '0o' or f == '00' and 0:
                pass
            for s in SUF if (v in (0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, M64) or th) else ['', 'u', 'l', 'LL', 'uLL']:
                t = int_type(v, dec, s)
                if t is None:
                    continue
                rows.append((f + s, v, GEN[t], 8 if 'long long' in t else 4, t))
        for s, n in MS.items():
            if v < 1 << (n - ('u' not in s.lower())):
                rows.append((f'{v}{s}', v, None, n // 8, 'unsigned' if 'u' in s.lower() else 'int'))
                rows.append((f'0x{v:x}{s}', v, None, n // 8, 'unsigned' if 'u' in s.lower() else 'int'))
    for i in range(0, len(rows), CH):
        body, exp = '', []
        for lit, v, g, size, t in rows[i:i + CH]:
            body += f'O({lit}); O(sizeof({lit}));'
            exp += [v, size]
            if g:
                body += f'O(T({lit})); O(({lit}) * 0 - 1 < 0); O(-{lit} < 0);'
                exp += [g, int('unsigned' not in t), int('unsigned' not in t and v != 0)]
        decl = f'static u64 g_{i}[] = {{ {", ".join(r[0] for r in rows[i:i + CH])} }};\n#if ' + ' && '.join(['1'] + [f'{r[0]} == {r[1]}u' for r in rows[i:i + CH] if r[2]]) + f'\nstatic s32 if_{i} = 1;\n#else\nstatic s32 if_{i} = 2;\n#endif\n'
        body += f'for(s32 i = 0; i < {len(rows[i:i + CH])}; i++) O(g_{i}[i]); O(if_{i});'
        exp += [r[1] for r in rows[i:i + CH]] + [1]
        yield f'int/{i}', decl, body, exp


def rnd(fr, mant, emin, emax):
    """round-to-nearest-even of a non-negative Fraction to a binary format; (None if it overflows)"""
    if fr == 0:
        return 0, 0
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2)**e > fr:
        e -= 1
    e = max(e, emin)
    q = fr / Fraction(2)**(e - mant)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >> (mant + 1):
        n >>= 1
        e += 1
    if e > emax:
        return None
    return n, e


def bits(fr, single):
    mant, emin, emax, bias = (23, -126, 127, 127) if single else (52, -1022, 1023, 1023)
    r = rnd(fr, mant, emin, emax)
    if r is None:
        return None
    n, e = r
    if n >> mant == 0:
        return n
    return ((e + bias) << mant) | (n & ((1 << mant) - 1))


def float_items(th):
    rows = []
    I = ['', '0', '1', '7', '12', '00', '09', '123456789', '16777217', '9007199254740993', '340282346', '1' + '0' * 40]
    F = [None, '', '5', '25', '1', '0', '000001', '3333333333333333333', '99999', '00000000000000000001']
    X = [None, 'e0', 'e5', 'E+5', 'e-5', 'e10', 'e-10', 'e22', 'e-30', 'e-37', 'e-44', 'e29', 'E-300', 'e-315', 'e290', 'e007']
    for i in I:
        for f in F:
            for x in X:
                if (i == '' and not f) or (f is None and x is None):
                    continue
                lit = i + ('.' + f if f is not None else '') + (x or '')
                v = Fraction(int(i or '0')) + (Fraction(int(f), 10**len(f)) if f else 0)
                v *= Fraction(10)**int(x[1:]) if x else 1
                for s in ('', 'f', 'l') if (len(rows) % 7 or 1) and not th else ('', 'f', 'F', 'l', 'L'):
                    b = bits(v, s in ('f', 'F'))
                    if b is not None:
                        rows.append((lit + s, b, s in ('f', 'F')))
    for i in ['', '0', '1', 'f', 'A', '1F', 'abcdef0123456', '1000001', 'ffffff8', '1fffffffffffff']:
        for f in [None, '', '8', 'F', '4c', '0000008', '00000000000008']:
            for x in ['p0', 'P1', 'p+3', 'p-3', 'p10', 'p-149', 'p-1074', 'p100', 'p960']:
                if i == '' and not f:
                    continue
                lit = '0x' + i + ('.' + f if f is not None else '') + x
                v = (Fraction(int(i or '0', 16)) + (Fraction(int(f, 16), 16**len(f)) if f else 0)) * Fraction(2)**int(x[1:])
                for s in ('', 'f', 'L'):
                    b = bits(v, s == 'f')
                    if b is not None:
                        rows.append((lit + s, b, s == 'f'))
    for i in range(0, len(rows), CH):
        r = rows[i:i + CH]
        decl = f'static float f_{i}[] = {{ {", ".join([x[0] for x in r if x[2]] + ["0"])} }}; static double d_{i}[] = {{ {", ".join([x[0] for x in r if not x[2]] + ["0"])} }};'
        body, exp = '', []
        for lit, b, s in r:
            body += f'{"OF" if s else "OD"}({lit}); O(T({lit}));'
            exp += [b, 10 if s else 11]
        nf = sum(x[2] for x in r)
        body += f'for(s32 i = 0; i < {nf}; i++) OF(f_{i}[i]); for(s32 i = 0; i < {len(r) - nf}; i++) OD(d_{i}[i]);'
        exp += [x[1] for x in r if x[2]] + [x[1] for x in r if not x[2]]
        yield f'float/{i}', decl, body, exp


SIMPLE = {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}
CPS = [0xa0, 0xff, 0x100, 0x3bb, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x1fbff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]


def s8(v):
    return v - 256 if v > 127 else v


def char_items(th):
    rows = []   # literal, value, type code
    esc = []
    for v in range(256):
        esc += [(f'\\x{v:x}', v), (f'\\x{v:02X}', v), (f'\\{v:o}', v), (f'\\{v:03o}', v), (f'\\x00{v:x}', v)]
    esc += [('\\' + k, v) for k, v in SIMPLE.items()]
    esc += [(chr(v), v) for v in range(32, 127) if chr(v) not in "'\\"]
    for t, v in esc:
        rows.append((f"'{t}'", s8(v), 1))
        for p, c in (('L', 0), ('u', 0), ('U', 2)):
            rows.append((f"{p}'{t}'", v, c))
    for v in [0x100, 0x7fff, 0x8000, 0xabcd, 0xffff]:
        rows += [(f"L'\\x{v:x}'", v, 0), (f"u'\\x{v:x}'", v, 0), (f"U'\\x{v:x}'", v, 2)]
    rows += [(f"U'\\x{v:x}'", v, 2) for v in (0x10000, 0x10ffff, 0xffffffff, 0x80000000)] + [(f"L'\\777'", 0o777, 0)]
    for cp in CPS:
        raw = chr(cp).encode('utf8').decode('latin1')
        us = [raw, f'\\U{cp:08x}', f'\\U{cp:08X}'] + ([f'\\u{cp:04x}', f'\\u{cp:04X}'] if cp < 0x10000 else [])
        for u in us:
            rows.append((f"U'{u}'", cp, 2))
            if cp < 0x10000:
                rows += [(f"L'{u}'", cp, 0), (f"u'{u}'", cp, 0)]
    pieces = [('a', 97), ('\\n', 10), ('\\xff', 255), ('\\0', 0), ('Z', 90), ('\\377', 255), ('"', 34), ("\\'", 39)]
    for n in (2, 3, 4):
        for c in itertools.product(pieces, repeat=n):
            v = 0
            for _, k in reversed(c):   # the order of the characters is implementation-defined; hlc stores the first in the lowest byte
                v = v << 8 | k
            t = ''.join(x for x, _ in c)
            if re.search(r'\\(0|377)[0-7]|\\xff[a-f0-9]', t):
                continue
            rows.append((f"'{t}'", v - 2**32 if v >> 31 else v, 1))
    for i in range(0, len(rows), CH):
        body, exp = '', []
        for lit, v, c in rows[i:i + CH]:
            body += f'O({lit}); O(sizeof({lit}));'
            exp += [v, {0: 2, 1: 4, 2: 4}[c]]
            if c:
                body += f'O(T({lit}));'
                exp.append(c)
        decl = f'static s64 g_{i}[] = {{ {", ".join(r[0] for r in rows[i:i + CH])} }};\n'
        for lit, v, c in rows[i:i + CH]:
            decl += f'#if {lit} != {v if v >= 0 else "(" + str(v) + ")"}\n#error bad\n#endif\n'
        body += f'for(s32 i = 0; i < {len(rows[i:i + CH])}; i++) O(g_{i}[i]);'
        exp += [r[1] for r in rows[i:i + CH]]
        yield f'char/{i}', decl, body, exp


def str_items(th):
    """string = sequence of pieces; every piece: (source, code units per encoding)"""
    P = [('a', 'a'), ('\\n', [10]), ('\\0', [0]), ('\\x41', [0x41]), ('\\xff', [255]), ('\\377', [255]), ('\\7', [7]), ('\\\\', [92]), ('\\"', [34]), ("'", "'"), ('?', '?'), ('??=', '??='), ('/*', '/*'), ('//', '//'), ('\\\n', ''), (' ', ' '), ('1', '1'), ('f', 'f'), ('%', '%'), ('\t', '\t')]
    for cp in CPS:
        raw = chr(cp).encode('utf8').decode('latin1')
        P.append((raw, chr(cp)))
        P.append((f'\\U{cp:08X}', chr(cp)))
        if cp < 0x10000:
            P.append((f'\\u{cp:04x}', chr(cp)))

    def units(val, enc):
        if isinstance(val, list):
            return list(val)
        if enc == 8:
            return list(val.encode('utf8'))
        if enc == 16:
            b = val.encode('utf-16-le', 'surrogatepass')
            return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
        return [ord(c) for c in val]
    PF = {'': 8, 'u8': 8, 'L': 16, 'u': 16, 'U': 32}
    seqs = [()] + [(p,) for p in P] + [(a, b) for a in P[:20] for b in P] + [(b, a) for a in P[:4] for b in P[20:]]
    if th:
        seqs += list(itertools.product(P[:20], repeat=3)) + list(itertools.product(P[20:], repeat=2))
    else:
        seqs += list(itertools.product(P[:8], repeat=3))

    def ok(s):
        t = ''.join(x for x, _ in s)
        # an escape must not swallow the following digit
        for (a, _), (b, _) in zip(s, s[1:]):
            if re.fullmatch(r'\\x.*', a) and re.match(r'[0-9a-fA-F]', b):
                return False
            if re.fullmatch(r'\\[0-7]{1,2}', a) and re.match(r'[0-7]', b):
                return False
        return True
    rows = []
    for s in seqs:
        for p, enc in PF.items():
            u = [x for _, v in s for x in units(v, enc)]
            if ok(s):
                rows.append((p + '"' + ''.join(x for x, _ in s) + '"', u, enc))
    # concatenation: every split, every prefix on at most one part, separated by blanks, newlines and comments
    C = [('"a"', 'a'), ('"\\x1"', [1]), ('"2"', '2'), ('""', ''), ('"\\0"', [0]), ('"\\u20ac"', '\u20ac'), ('"7\\""', '7"')]
    for n in (2, 3):
        for parts in itertools.product(C, repeat=n):
            for p in PF:
                for where in range(n):
                    if p == '' and where:
                        continue
                    sep = ['', ' ', '\n', '/**/', ' //"\n'][(where + n + len(rows)) % 5]
                    t = sep.join((p if i == where else '') + x for i, (x, _) in enumerate(parts))
                    rows.append((t, [q for _, v in parts for q in units(v, PF[p])], PF[p]))
    CT = {8: 'u8', 16: 'u16', 32: 'u32'}
    ARR = {8: 'char', 16: 'u16', 32: 'u32'}
    for i in range(0, len(rows), CH):
        decl, body, exp = '', '', []
        for k, (lit, u, enc) in enumerate(rows[i:i + CH]):
            decl += f'static {ARR[enc]} s{k}_{i}[] = {lit};\nstatic {ARR[enc]} *p{k}_{i} = {lit};\n'
            n = len(u) + 1
            body += f'\nO(sizeof({lit})); O(sizeof(s{k}_{i})); {{ {CT[enc]} *q = (void *){lit}; u64 h = 0; for(s32 i = 0; i < {n}; i++) h = h * 31 + q[i]; O(h); {ARR[enc]} l[] = {lit}; q = (void *)l; O(sizeof(l)); for(s32 i = 0; i < {n}; i++) O(q[i]); O(((u8 *)s{k}_{i})[0]); h = 0; for(s32 i = 0; i < {n}; i++) h = h * 31 + (({CT[enc]} *)s{k}_{i})[i]; O(h); h = 0; for(s32 i = 0; i < {n}; i++) h = h * 31 + (({CT[enc]} *)p{k}_{i})[i]; O(h); O((({CT[enc]} *){lit})[{n - 1}]); }}'
            w = enc // 8
            h = 0
            for x in u + [0]:
                h = (h * 31 + x) & M64
            exp += [n * w, n * w, h, n * w] + u + [0] + [(u + [0])[0] & 255, h, h, 0]
        yield f'str/{i}', decl, body, exp


def comment_items(th):
    A = ['x += 1;', '/* x += 2; */', '// x += 4;\n', '/*/ x += 8; /*/', 'y = "/*"; x += 16;', 'y = "*/";', 'y = "\\\\"; //"\n', 'c = \'"\'; x += 32;', "c = '\\''; /*'*/ x += 64;", 'x = x /**/ + 128;', 'x/*..*/+=/**/256;', 'x = x //**/ 2\n + 3;', 'y = "\\"//"; x ^= 5;', '/***/', '/**//**/x++;', 'x = x / /*/*/ 2;', '/* \\*/', "y = \"'\";", '\tx\v+=\f3 ;', 'x += \\\n 7;', '/* "*/ x -= 3; /* " */', '\r\n', 'x -=\r\n9;', "/*\n//*/ x = ~x;", 'x = x-- - --x;' if 0 else 'x = x- -x;']
    n = 3 if th else 2
    k = 0
    for s in itertools.product(A, repeat=n):
        k += 1
        yield 'comment/' + str(k), '', 's32 x = 1000; s32 c = 0; char *y = "q"; ' + ''.join(s) + '\nO(x); O(c); O(*y);', 3
    if not th:
        for s in itertools.product(A[:14], repeat=3):
            k += 1
            yield 'comment/' + str(k), '', 's32 x = 1000; s32 c = 0; char *y = "q"; ' + ''.join(s) + '\nO(x); O(c); O(*y);', 3


def ident_items():
    names = ['L', 'u', 'U', 'u8_', 'LR', 'R', '_0', 'e5', 'x0', 'p1', 'LL', 'ull', '$', '$a', 'a$', '_', '__', 'a' * 31, 'a' * 32, 'a' * 63, 'a' * 64 + 'x', 'a' * 64 + 'y', 'b' * 255, 'b' * 256, 'c' * 1000, 'c' * 999 + 'd', 'Ez', 'FY', 'xEz', 'xFY', 'EzEz', 'EzFY', 'FYEz', 'FYFY',
             '\u00e9'.encode().decode('latin1'), '\u03bb1'.encode().decode('latin1'), 'i\U0001f600'.encode().decode('latin1') if 0 else 'x\u4e2d'.encode().decode('latin1'), 'Int', 'iF', 'If', 'If0', 'whilE', 'sizeof_', '_sizeof', 'doubl', 'double_', 'inline_', 'A1', 'A_1', 'A10', 'A01']
    n = len(names)
    d = ''.join(f'static s32 {x} = {i + 1};\n' for i, x in enumerate(names))
    yield 'ident/global', '', 0, d, 'g'
    yield 'ident/x', d, ' '.join(f'O({x});' for x in names), n
    yield 'ident/local', '', ' '.join(f's32 {x} = {i * 3};' for i, x in enumerate(names)) + ' '.join(f'O({x});' for x in names), n
    yield 'ident/member', 'struct S_@ {' + ' '.join(f's32 {x};' for x in names) + '};', 'struct S_@ s; s32 *p = (s32 *)&s; for(s32 i = 0; i < %d; i++) p[i] = i * 7;' % n + ' '.join(f'O(s.{x});' for x in names), n
    yield 'ident/macro', '', ''.join(f'\n#define {x} {i + 50}\n' for i, x in enumerate(names)) + ' '.join(f'O({x});' for x in names) + ''.join(f'\n#undef {x}\n' for x in names), n
    yield 'ident/enum', '', 'enum {' + ', '.join(f'{x} = {i * 5}' for i, x in enumerate(names)) + '};' + ' '.join(f'O({x});' for x in names), n
    yield 'ident/tag', '', ' '.join(f'struct {x} {{ char c[{i + 1}]; }};' for i, x in enumerate(names)) + ' '.join(f'O(sizeof(struct {x}));' for x in names), n
    yield 'ident/typedef', '', ' '.join(f'typedef char {x}[{i + 1}];' for i, x in enumerate(names)) + ' '.join(f'O(sizeof({x}));' for x in names), n
    yield 'ident/label', '', 's32 i = 0; l_: switch(i++){' + ' '.join(f'case {i}: goto {x};' for i, x in enumerate(names)) + 'default: goto end_; }' + ' '.join(f'{x}: O({i}); goto l_;' for i, x in enumerate(names)) + 'end_:;', n
    yield 'ident/func', ''.join(f'static s32 f{x}(void){{ return {i * 9}; }}\n' for i, x in enumerate(names)), ' '.join(f'O(f{x}());' for x in names), n
    yield 'ident/param', 'static void fp_@(' + ', '.join(f's32 {x}' for x in names) + '){' + ' '.join(f'O({x});' for x in names) + '}', 'fp_@(' + ', '.join(str(i * 11) for i in range(n)) + ');', n
    yield 'ident/mparam', '', ''.join(f'\n#define M({x}) ({x} + {i} + K(L))\n#define K(L) #L[0]\nO(M({i}));\n#undef M\n#undef K\n' for i, x in enumerate(names)), n


def misc_items():
    yield 'misc/octal-separator', '', "O(0'17); O(00'17); O(0'0);"
    yield 'misc/float-separator', '', "OD(1'0.5); OD(1e1'0); OD(0.0'5); OD(1'000'000.2'5e1'0); OF(1'2.5f);"
    yield 'misc/comment-splice', '', 's32 x = 1; // c \\\nx = 2;\nO(x); // \\\n\\\nx = 5;\nO(x); // \\\r\nx = 7;\r\nO(x);'
    yield 'misc/splice-in-identifier', '', 's32 abc = 3, x = 4; O(ab\\\nc);'
    yield 'misc/splice-in-number', '', 's32 x = 12\\\n3; O(x);'
    yield 'misc/splice-in-operator', '', 's32 x = 5; x +\\\n= 3; O(x);'
    yield 'misc/splice-in-comment-start', '', 's32 x = 5; x /\\\n* 3 */ ; O(x);'
    yield 'misc/generic-long', '', 'O(_Generic(1, int: 1, long: 2)); O(_Generic(1l, int: 1, long: 2)); O(_Generic(1ul, long: 1, unsigned long: 2, unsigned: 3));'
    yield 'misc/digraphs', '', 's32 x<::> = <% 1, 2 %>; O(x<:1:>);'
    yield 'misc/generic-order', '', ''.join(f'O(_Generic(({t})0, {", ".join(perm)}));' for t in ('char', 'short', 'int', 'unsigned', 'long long', 'float', 'double', 's32 *', 'u8') for perm in itertools.permutations(['int: 10', 'double: 11', 'default: 12', 's32 *: 13'])), '', 216
    yield 'misc/generic-side', '', 's32 x = 1; O(_Generic(x++, int: x + 1, default: x++)); O(x); O(_Generic(1.0f, double: x++, float: ({0}), int: x--)); O(x);'.replace('({0})', '(x += 5, x)') + 's32 y[_Generic(x, long long: 4, int: 6, char: 8)]; O(sizeof(y)); O(_Generic(y, s32 *: 1, default: 2)); O(_Generic(x, default: 3, char: 4) + 1); O(_Generic(x, int: x, default: 0) = 9); O(x);', '', 16


def munch_items(c):
    """every string of up to N operator characters between two operands; clang decides which are expressions"""
    chars = '+-*/%&|^<>=!~?:.,'
    cand = []
    N = 4 if c.thorough else 3
    for n in range(1, N + 1):
        for t in itertools.product(chars, repeat=n):
            s = ''.join(t)
            if '/*' in s or re.search('<:|:>|<%|%>|%:', s):   # comments are covered above; digraphs are not provided by hlc
                continue
            cand.append(s)
    four = []
    if not c.thorough:
        for t in itertools.product('+-*&<>=!~|', repeat=4):
            four.append(''.join(t))
    cand += four
    # a: variable, b: variable; each form is its own function
    forms = []
    for s in cand:
        if '?' in s and ':' not in s:
            forms.append((s, f'a{s}b:7'))
        else:
            forms.append((s, f'a{s}b'))
        if len(s) <= 2:
            forms += [(s, f'a{s}1'), (s, f'2{s}b'), (s, f'(a){s}(b)'), (s, f'a{s}.5'), (s, f"a{s}'\\3'"), (s, f'a{s}0x1e'), (s, f'*p{s}b'), (s, f'a{s}3.'), (s, f'1.{s}b')]
    # ask clang which compile
    pre = 'typedef int s32; typedef struct { int m; } S;\n'
    ok = []
    CH = 4000
    import subprocess

    def accept(fs):
        src = pre + ''.join(f'void f{i}(s32 a, s32 b, s32 *p, S *ps){{ volatile s32 r; r = {f}\n; }}\n' for i, (s, f) in enumerate(fs))
        pth = c.ref.fresh() + '.c'
        open(pth, 'w').write(src)
        o = subprocess.run(['clang-18', '--target=x86_64-pc-windows-msvc', '-fsyntax-only', '-std=gnu2x', '-pedantic-errors', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=pointer-integer-compare', '-ferror-limit=0', '-fno-caret-diagnostics', pth], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode('latin1')
        bad = set()
        for m in re.finditer(r'\.c:(\d+):\d+: (?:fatal )?error', o):
            bad.add((int(m.group(1)) - 2) // 2)
        os.unlink(pth)
        return [f for i, f in enumerate(fs) if i not in bad], [f for i, f in enumerate(fs) if i in bad]
    res = c.e.map(accept, [forms[i:i + CH] for i in range(0, len(forms), CH)])
    good = [x for g, b in res for x in g]
    rej = [x for g, b in res for x in b]
    c.cov['operator_strings'] = len(forms)
    c.cov['operator_strings_valid'] = len(good)
    for i, (s, f) in enumerate(good):
        if re.search(r'[/%]=?[-+~*&]*!', f):
            continue   # may divide by zero
        if re.search(r'[/%]', f):
            vals = [(7, 2), (-9, 4)]
        else:
            vals = [(7, 2), (-1, 5), (0, 3)]
        yield ('munch', i, f), '', ''.join(f'{{ s32 a = {a}, b = {b}; s32 p_[2] = {{{a}, 9}}; s32 *p = p_; s32 r; r = {f}\n; O(r); O(a); O(b); O(p - p_); O(p_[0]); }}' for a, b in vals), 5 * len(vals)


def body(c):
    head = HEAD + PRE
    d = Diff(c, head=head, batch=12)

    def mk(k, dc, b, e):
        return Item(k, b, dc, len(e), e)
    its = []
    for g in (int_items, float_items, char_items, str_items):
        n = len(its)
        its += [mk(*t) for t in g(c.thorough)]
        c.sample({'key': its[n + 1].key, 'body': its[n + 1].body[:300], 'expect': its[n + 1].expect[:10]})
    c.cov['literal_observations'] = sum(len(i.expect) for i in its)
    d.run(its)
    d2 = Diff(c, head=head, batch=80, ref_flags=['-std=gnu2x', '-Wno-everything'])
    d2.run(uniq(list(comment_items(c.thorough)) + list(munch_items(c))))
    d3 = Diff(c, head=head, batch=1, ref_flags=['-std=gnu2x', '-Wno-everything'])
    d3.run([Item(t[0], t[2], t[1], t[4] if len(t) > 4 else 8) for t in misc_items()])
    d3.run(uniq([t for t in ident_items() if len(t) < 5]))
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'literals: value sets x bases x suffixes x separators; float grammar product; all 256 byte values in all escape forms and prefixes; code points at encoding boundaries; all piece sequences up to length 2-3; comment/splice sequences; every operator string up to length 3 (4 over a sub-alphabet) between operands that clang accepts. Literal oracle: a model of the C rules in the check (exact rational arithmetic); adjacency oracle: clang-18.'


if __name__ == '__main__':
    main('C23', 'exploration', body)
