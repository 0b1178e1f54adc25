#!/usr/bin/env python3
"""C16: ill-formed programs are rejected cleanly.

Exhaustive enumeration on the real compiler of
 1. every single-token edit (deletion, duplication, truncation, exchange, insertion and replacement with every kind of token) of seed programs that
    together use every construct of the language; all token sequences up to length 3; constant expressions over the limits of every type in every context that needs a constant; all byte truncations and byte replacements of small seeds. Each must end in an
    exit (no crash, assertion, hang); non-zero with a diagnostic that names file and line and without output, or zero with the output written;
 2. of those, the ones accepted without a warning must also be accepted by an independent compiler (clang), except for listed extensions;
 3. a catalogue of constraint violations, each in several contexts (file scope, function, nested blocks, header, second file, macro expansion, after comments and
    splices, several threads), must be rejected, with the diagnostic at the line of the violation; near misses must be accepted."""
import os, sys, re, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from check import main
import hx
from gen_bad import *
import gen_cat

ARGS = 'a.c /obj /no_debug /quiet'
DIAG = re.compile(r'^(?:In file included[^\n]*\n)?C:/[^\n()]*\(\d+,\d+\): (?:Syntax )?[Ee]rror', re.M)
CLANG = ['/usr/lib/llvm-18/bin/clang', '-cc1', '-triple', 'x86_64-pc-windows-msvc', '-std=c17', '-fsyntax-only', '-fms-extensions', '-fms-compatibility', '-fdeclspec', '-fasm-blocks', '-Wno-everything', '-ferror-limit', '1']
# What clang rejects and the compiler, by design or as a documented extension, accepts (order of declarations, extra tokens on directive lines,
# intrinsics with other types, lenient parsing that does not change the meaning of valid programs).
LENIENT = [r'is not a valid binary operator in a preprocessor subexpression', r'use of undeclared identifier', r'file not found', r'expected end of line in preprocessor expression', r'expected parameter declarator',
           r'ISO C requires a named parameter before', r'conflicting types for', r'expected expression', r"argument may not have '", r'unterminated function-like macro invocation',
           r'must be the first and only parameter', r'array initializer must be an initializer list', r'in generic association', r"^expected '", r'expected a type', r'builtin functions must be directly called',
           r'expected member name', r'must use', r'tentative definition has type', r'incomplete type', r'redefinition of', r'redeclaration of', r'call to undeclared function', r'invalid token at start of a preprocessor']


def problem(r, out='a.obj', text=None):
    t = r.out.decode('latin1') if text is None else text
    m = re.search(r"([\w.]+)\((\d+)\): ASSERT FIRED: '(.*)' in function (\w+)", t)
    if m:
        return f'assertion in {m[4]}: {m[3]}'
    if r.kind != 'exit':
        return f'{r.kind} {r.code} rip={r.rip:#x} {r.errs}'
    if r.code == 0:
        return None if out in r.files or out is None else 'success reported, but there is no output file'
    if r.code != 1:
        return f'exit status {r.code:#x}: {t[-300:]}'
    if not DIAG.search(t):
        return f'rejected without a diagnostic that names file and line: {t[-300:]!r}'
    if out in r.files:
        return 'rejected, but there is an output file'
    return None


def compared():
    """the programs whose acceptance is compared with clang's: those of the quick tier, edits with the tokens of SMALL (in the larger alphabet many edits only exercise documented lenience)"""
    class Q:
        thorough = False
    return {x[1] for x in mutants(Q)}


def mutants(c):
    alpha = ALPHA if c.thorough else SMALL
    seen = set()
    for n in SEEDS:
        for k, s in mutations(n, alpha):
            if s not in seen:
                seen.add(s)
                yield k, s, HEADER, ARGS
    # token sequences
    toks = ['int', 'x', '1', '(', ')', '{', '}', '[', ']', ';', ',', '*', '=', 'struct', '#', '\n', '"s"', 'if', '.', ':']
    if c.thorough:
        toks += ['+', 'enum', 'typedef', 'return', '1.5', 'static', '##', '\\', '/*', '_Alignas', '__declspec', '?', '__asm__', '#if', '#define', '...']
    for a in [''] + toks:
        for b in ([''] + toks if a else ['']):
            for d in ([''] + toks if b else ['']):
                for where, pre, post in (('file', '', ''), ('func', 'int x; int f(int a){ x = 1; ', ' return 0; }'), ('pp', '#if ', '\n#endif\n'), ('def', '#define M(a) ', '\nint y = M(1);\n')):
                    if where in ('pp', 'def') and not c.thorough and d:
                        continue
                    s = pre + ' '.join((a, b, d)).strip() + post
                    if s not in seen:
                        seen.add(s)
                        yield f'seq-{where}/{a!r},{b!r},{d!r}', s, HEADER, ARGS
    # constant expressions over the limits of the types: overflow, division and shifts that trap or are undefined on the machine the compiler runs on
    V = ['0', '1', '-1', '-2', '31', '32', '63', '64', '65', '1000000', '2147483647', '(-2147483647 - 1)', '4294967295u', '9223372036854775807ll', '(-9223372036854775807ll - 1)', '18446744073709551615ull']
    OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '==', '&&', '||']
    F = ['0.0', '1e300', '-1e300', '1e308 * 1e308', '(0.0 / 0.0)', '3e9', '9.3e18', '-9.3e18', '1.9e19', '1e-320', '3.5e38', '-0.5']
    T = ['int', 'char', '_Bool', 'unsigned', 'long long', 'unsigned long long', 'float', 'double', 'unsigned char', 'short']
    strict = [('array', 'int a[{e}];'), ('enum', 'enum e {{ A = {e} }};'), ('case', 'int f(int x){{ switch(x){{ case {e}: return 1; }} return 0; }}'), ('bits', 'struct s {{ int x : {e}; }};'), ('align', '_Alignas({e}) int x;'), ('assert', '_Static_assert({e}, "m");'), ('index', 'static int a[] = {{ [{e}] = 1 }};'),
              ('pack', '#pragma pack({e})\nint x;'), ('const', 'static long long x = {e}; static signed char y = {e};'), ('expr', 'long long f(void){{ return {e}; }} int g(int x){{ return (x = {e}) ? {e} : x; }}'), ('if', '#if {e}\n#elif !({e})\n#endif\n#if 0 && ({e})\n#endif\nint x;')]
    small_v = V if c.thorough else ['0', '-1', '64', '2147483647', '(-2147483647 - 1)', '4294967295u', '(-9223372036854775807ll - 1)', '18446744073709551615ull']
    for a in V:
        for b in V:
            for where, t in strict:
                for o in OPS:
                    if c.thorough or where in ('const', 'expr', 'if') and o in '/%*<<>>' or a in small_v and b in small_v and o in '/%<<-':
                        yield f'const/{where}/{a} {o} {b}', t.format(e=f'{a} {o} {b}'), HEADER, ARGS
        for u in ('-', '~', '!', '+', '-~', '- -'):
            for where, t in strict:
                yield f'const/{where}/{u}{a}', t.format(e=u + a), HEADER, ARGS
        for o in ('/=', '%=', '<<=', '>>=', '*=', '-='):
            yield f'const/assign/{o}{a}', ' '.join(f'void f{i}({t} x){{ x {o} {a}; }}' for i, t in enumerate(T[:2] + T[3:6] + T[8:])), HEADER, ARGS
    for f in F:
        for t in T:
            for where, p in strict:
                if where not in ('pack', 'if'):
                    yield f'const/{where}/({t}){f}', p.format(e=f'({t})({f})'), HEADER, ARGS
        for g in F:
            yield f'const/float/{f}/{g}', 'static double d[] = {' + ', '.join(f'{f} {o} {g}' for o in '+-*/') + '}; static int i[] = {' + ', '.join(f'{f} {o} {g}' for o in ('<', '<=', '==', '!=', '&&', '||')) + '};', HEADER, ARGS
    # bytes
    small = {'b0': 'int f(int a){ return a + \'\\n\' + "x\\t"[0] + 0x1f; } /* c */ // d\n', 'b1': '#define A(x) #x L"w" 1.5e3f\n#if 1 \\\n\n#include "h.h"\n#endif\nchar c[] = A(a b);\n'}
    for n, s in small.items():
        for i in range(len(s) + 1):
            yield f'{n}/trunc{i}', s[:i], HEADER, ARGS
            for ch in (range(256) if c.thorough else (0, 9, 10, 13, 26, 34, 35, 39, 42, 47, 48, 92, 127, 128, 255)):
                if i < len(s):
                    yield f'{n}/byte{i}-{ch}', s[:i] + chr(ch) + s[i + 1:], HEADER, ARGS
                yield f'{n}/bins{i}-{ch}', s[:i] + chr(ch) + s[i:], HEADER, ARGS


def accept_class(msg):
    return any(re.search(p, msg) for p in LENIENT)


def diff(c, inc, d, k, s, r):
    p = subprocess.run(CLANG + ['-internal-isystem', inc, '-I', d, '-x', 'c', '-'], input=s.encode('latin1'), capture_output=True, timeout=60)
    m = re.search(r'error: (.*)', p.stderr.decode('latin1'))
    c.count(accepted_and_compared=1)
    if m and not accept_class(m[1]):
        c.violation('accepts/' + k, f'an ill-formed program is accepted without a diagnostic; clang: {m[1]}', {'a.c': s, **HEADER, 'cmdline.txt': 'hlc ' + ARGS})


def robust(c):
    inc = os.path.join(hx.REPO, 'implicit', 'include')
    d = tempfile.mkdtemp(prefix='c16')
    for h in HEADER:
        open(os.path.join(d, h), 'w').write(HEADER[h])
    c.cov['rejected'] = c.cov['accepted'] = 0

    cmp_ok = compared()

    def one(x):
        k, s, more, args = x
        if len(c.violations) > 40 and not os.environ.get('HX_KEYS'):
            return
        r = c.e.compile({'a.c': s, **more}, args, timeout=8)
        if r.kind == 'timeout':
            r = c.e.compile({'a.c': s, **more}, args, timeout=60)
        c.count(1)
        p = problem(r)
        if p:
            c.violation(k, p, {'a.c': s, **more, 'cmdline.txt': 'hlc ' + args})
        elif r.code:
            c.count(0, rejected=1)
            if not k.startswith('seq') or len(k) < 14:
                c.seen(k)
        else:
            c.count(0, accepted=1)
            c.seen(k)
            if s in cmp_ok and not k.startswith(('seq-pp', 'seq-def', 'const/')) and b'Warning' not in r.out and '\0' not in s and not re.match(r'b\d/.*-(13|26|39|92)$', k) and all(ord(ch) < 128 for ch in s):
                diff(c, inc, d, k, s, r)
    items = [x for x in mutants(c) if os.environ.get('HX_ONLY', '') in x[0]]
    c.e.map(one, items)
    c.cov['edited programs'] = len(items)
    for i in (0, len(items) // 3, len(items) // 2):
        if len(items) > i: c.sample(f'{items[i][0]}: {items[i][1][:120]!r}')
    shutil.rmtree(d)


# contexts: (name, kinds, build(line) -> (files, args, file the diagnostic names, line))
def contexts():
    P = gen_cat.PRE
    T = 'int after(void){ return gi; }\n'

    def at(pre, l, post, name='a.c', files=None, args=ARGS, wrap=None):
        s = pre + l + '\n' + post
        f = {name: s}
        f.update(files or {})
        return f, args, name, pre.count('\n') + 1

    F = 'int bad(void){\n gi = 1;\n'
    E = ' gi = 2;\n return gi; }\n'
    out = [('file', 'F', lambda l: at(P, l, T)),
           ('func', 'S', lambda l: at(P + F, l, E + T)),
           ('block', 'S', lambda l: at(P + F + ' if(gi){ { while(gi){ gi--;\n', l, ' gi = 3; } } }\n' + E + T)),
           ('nested', 'S', lambda l: at(P + F + ' switch(gi + 1 ? 4 : 5){ default: gi = 4; } for(int q = 0; q < gi; q++){ do {\n', l, ' gi = 3; } while(0); }\n' + E + T)),
           ('after comment', 'FS', None),
           ('header', 'FS', None), ('included twice down', 'FS', None), ('second file', 'FS', None), ('threads', 'FS', None),
           ('static function', 'S', lambda l: at(P + 'static int bad(void){\n gi = 1;\n', l, E + 'int use(void){ return bad(); }\n' + T)),
           ('inline function', 'S', lambda l: at(P + 'static inline int bad(void){\n gi = 1;\n', l, E + 'int use(void){ return bad(); }\n' + T)),
           ('before declarations', 'S', lambda l: at('\nint bad(void){\n gi = 1;\n', l, E + T + P)),
           ('debug', 'FS', None), ('exe', 'S', None), ('preprocessed away', 'FS', None), ('crlf', 'FS', None)]
    return out


def body_for(name, kind, l, fn):
    """(files, args, file, line, out)"""
    P, T = gen_cat.PRE, 'int after(void){ return gi; }\n'
    F = P + 'int bad(void){\n gi = 1;\n' if kind == 'S' else P
    E = (' gi = 2;\n return gi; }\n' if kind == 'S' else '') + T
    if fn:
        f, a, n, ln = fn(l)
        return f, a, n, ln, 'a.obj'
    if name == 'after comment':
        s = F + '/* a comment\n over * / lines\n\n*/ // and \\\n a splice\n#define LONG(a, \\\n  b) a \\\n b\n'
        return {'a.c': s + l + '\n' + E}, ARGS, 'a.c', s.count('\n') + 1, 'a.obj'
    if name == 'header':
        return {'a.c': '\n#include "bad.h"\n' + 'int more;\n', 'bad.h': F + l + '\n' + E}, ARGS, 'bad.h', F.count('\n') + 1, 'a.obj'
    if name == 'included twice down':
        return {'a.c': '#include "x.h"\nint q1;\n', 'x.h': 'int q2;\n\n#include "bad.h"\n' + 'int more;\n', 'bad.h': F + l + '\n' + E}, ARGS, 'bad.h', F.count('\n') + 1, 'a.obj'
    if name == 'second file':
        return {'b.c': F + l + '\n' + E, 'a.c': 'int main(void){ return 0; }\n'}, 'a.c b.c /obj /out a.obj /quiet', 'b.c', F.count('\n') + 1, 'a.obj'
    if name == 'threads':
        return {'b.c': F + l + '\n' + E, 'a.c': 'int main(void){ return 0; }\n'}, 'a.c b.c /obj /out a.obj /quiet /thread_count 3', 'b.c', F.count('\n') + 1, 'a.obj'
    if name == 'debug':
        return {'a.c': F + l + '\n' + E}, 'a.c /obj /quiet', 'a.c', F.count('\n') + 1, 'a.obj'
    if name == 'exe':
        return {'a.c': F + l + '\n' + E + 'int main(void){ return bad(); }\n'}, 'a.c /quiet', 'a.c', F.count('\n') + 1, 'a.exe'
    if name == 'crlf':
        return {'a.c': (F + l + '\n' + E).replace('\n', '\r\n')}, ARGS, 'a.c', F.count('\n') + 1, 'a.obj'
    if name == 'preprocessed away':
        s = F + '#if 0\n garbage ( [ ; } 1.5.x\n#else\n'
        return {'a.c': s + l + '\n#endif\n' + E}, ARGS, 'a.c', s.count('\n') + 1, 'a.obj'
    raise KeyError(name)


def catalogue(c):
    cat = gen_cat.catalogue()
    ctxs = contexts()
    todo = []
    for name, kinds, fn in ctxs:
        for key, kind, l in cat:
            if kind not in kinds:
                continue
            if fn and kind == 'S' and name == 'file':
                continue
            if name in ('block', 'nested') and ('break' in l or 'continue' in l):
                continue
            if name == 'preprocessed away' and l.startswith('#'):
                continue
            if name == 'before declarations' and (l.startswith('#') or 'M2' in l or 'OBJ' in l or key in gen_cat.ORDER):
                continue
            if not c.thorough and name in ('included twice down', 'inline function', 'debug', 'crlf', 'exe') and hash_(key) % 3:
                continue
            todo.append((name, fn, key, kind, l))
    goods = [('S', g) for g in gen_cat.lines(gen_cat.GOOD_S)] + [('F', g) for g in gen_cat.lines(gen_cat.GOOD_F)]

    def good(x):
        (name, fn), (kind, l) = x
        f, a, n, ln, out = body_for(name, kind, l + ('\n#endif' if l.startswith('#if') and '#endif' not in l else ''), fn)
        r = c.e.compile(f, a, timeout=20, nproc=3 if 'thread' in name else 1, image=0)
        c.count(1)
        p = problem(r, out) or ('rejected: ' + r.out.decode('latin1')[-300:] if r.code else None)
        if p:
            c.violation(f'good/{name}/{l}', f'valid program: {p}', {**f, 'cmdline.txt': 'hlc ' + a})
    c.e.map(good, [((n, fn), g) for n, k, fn in ctxs for g in goods if g[0] in k and not (n == 'before declarations' and (g[1].startswith('#') or 'M2' in g[1] or 'OBJ' in g[1])) and not (n == 'preprocessed away' and g[1].startswith('#'))])

    def one(x):
        name, fn, key, kind, l = x
        if len(c.violations) > 60 and not os.environ.get('HX_KEYS'):
            return
        f, a, n, ln, out = body_for(name, kind, l, fn)
        r = c.e.compile(f, a, timeout=20)
        c.count(1)
        c.seen(f'{name}/{key}')
        p = problem(r, out)
        k = f'cat/{name}/{key}'
        rep = {**f, 'cmdline.txt': 'hlc ' + a}
        if p:
            c.violation(k, f'{l!r}: {p}', rep)
            return
        if r.code == 0:
            c.violation(k, f'{l!r} is accepted: {r.out.decode("latin1")[:300]}', rep)
            return
        t = r.out.decode('latin1')
        ls = {int(m) for m in re.findall(r'^C:/w/' + re.escape(n) + r'\((\d+),\d+\): (?:Syntax )?[Ee]rror', t, re.M)}
        nl = l.count('\n')
        if key not in gen_cat.ELSEWHERE and not any(ln <= x <= ln + nl + (2 if name == 'preprocessed away' else 1) for x in ls):
            c.violation(k, f'{l!r} on line {ln} of {n}, but the diagnostics are at {sorted(ls)}: {t[:400]}', rep)
    c.e.map(one, todo)
    c.cov['catalogue entries'] = len(cat)
    c.cov['catalogue cases'] = len(todo)
    c.sample(f'{todo[7][0]}: {todo[7][4]}')
    c.sample(f'{todo[-7][0]}: {todo[-7][4]}')


def hash_(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0xffffffff
    return h


def body(c):
    c.cov['rule'] = 'a case is one compiled input; non-trivial: an edited or generated program that is not just a repetition of the same first-token error (token sequences of length 3 are not counted when rejected)'
    catalogue(c)
    robust(c)


if __name__ == '__main__':
    main('C16', 'exploration', body, need_ref=False)
