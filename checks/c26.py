from common import *
import struct

M = 2**64 - 1
HD = 'typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef int s32; typedef long long s64;\n'
RUN = '__declspec(dllexport) u64 run(u64 *o, u64 z){ z = o[0]; '
PRIME = 0x100000001b3


def hsh(vals):
    h = 5
    for v in vals:
        h = (h * PRIME + v) & M
    return h


H = 'h = h * 0x100000001b3ull + (u64)'
DIMS = {}


def dim(name, top, thorough=None, must=None):
    """top: largest size of the quick ladder; must: up to this size the program has to be accepted (default: all)"""
    def d(f):
        DIMS[name] = (f, top, thorough or top * 4, must)
        return f
    return d


def nl(xs, per=16):
    return ''.join(x + ('\n' if i % per == per - 1 else '') for i, x in enumerate(xs))


# --- declarations ---------------------------------------------------------------------------------------------------
@dim('globals', 9000)
def _(n):
    return HD + nl(f'u32 g{i} = {i * 7 + 1};' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} g{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i * 7 + 1 for i in range(n))]


@dim('bss', 4100)
def _(n):
    return HD + nl(f'u{8 << (i % 4)} g{i};' for i in range(n)) + RUN + nl(f'g{i} = {i} + z;' for i in range(n)) + 'u64 h = 5; ' + nl(f'{H} g{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i % (256 if i % 4 == 0 else 65536) for i in range(n))]


@dim('tentative', 1030)
def _(n):
    return HD + nl('u32 g;' for i in range(n)) + 'u32 g = 77;' + nl('extern u32 g;' for i in range(n)) + RUN + 'o[0] = g; return 8; }', [77]


@dim('functions', 5000)
def _(n):
    return HD + nl(f'u64 f{i}(u64 x){{ return x * 3 + {i}; }}' for i in range(n)) + RUN + 'u64 h = z; ' + nl(f'h = f{i}(h);' for i in range(n)) + 'o[0] = h; return 8; }', [_fold(n)]


def _fold(n):
    h = 0
    for i in range(n):
        h = (h * 3 + i) & M
    return h


@dim('call_chain', 3000)
def _(n):
    return HD + nl(f'static u64 f{i}(u64 x){{ return f{i + 1}(x + {i}); }}' for i in range(n)) + f'static u64 f{n}(u64 x){{ return x; }}' + RUN + 'o[0] = f0(z); return 8; }', [n * (n - 1) // 2]


@dim('function_pointers', 4100)
def _(n):
    return HD + nl(f'static u64 f{i}(u64 x){{ return x + {i * i}; }}' for i in range(n)) + f'u64 (*t[{n}])(u64) = {{' + nl(f'f{i},' for i in range(n)) + '};' + RUN + f'u64 h = 5; for(u64 i = 0; i < {n}; i++) {H} t[i](z); o[0] = h; return 8; }}', [hsh(i * i for i in range(n))]


@dim('pointers', 4100)
def _(n):
    return HD + f'u32 a[{n}]; ' + nl(f'u32 *p{i} = a + {i};' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} (p{i} - a);' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(range(n))]


@dim('typedef_chain', 1030)
def _(n):
    return HD + 'typedef u64 t0;' + nl(f'typedef t{i} t{i + 1};' for i in range(n)) + f't{n} g = 5;' + RUN + f'o[0] = g + sizeof(t{n}) + z; return 8; }}', [13]


@dim('typedef_chain_reversed', 520)
def _(n):
    return HD + f't{n} g = 5;' + nl(f'typedef t{i} t{i + 1};' for i in reversed(range(n))) + 'typedef u64 t0;' + RUN + f'o[0] = g + sizeof(t{n}) + z; return 8; }}', [13]


@dim('enumerators', 9000)
def _(n):
    return HD + 'enum e { ' + nl(f'e{i}' + (f' = {i * 2},' if i % 2 else ',') for i in range(n)) + '};' + RUN + 'u64 h = 5; ' + nl(f'{H} e{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i * 2 if i % 2 else (0 if i == 0 else (i - 1) * 2 + 1) for i in range(n))]


@dim('members', 5000)
def _(n):
    return HD + 'struct s { ' + nl(f'u{8 << (i % 4)} m{i};' for i in range(n)) + '} g; ' + RUN + nl(f'g.m{i} = {i} + z;' for i in range(n)) + 'u64 h = 5; struct s l = g; ' + nl(f'{H} l.m{i};' for i in range(n)) + 'o[0] = h; o[1] = sizeof(g); return 16; }', [hsh(i % 256 if i % 4 == 0 else i % 65536 for i in range(n)), _sz(n)]


def _sz(n):
    o = 0
    a = 1
    for i in range(n):
        s = 1 << (i % 4)
        a = max(a, s)
        o = (o + s - 1) // s * s + s
    return (o + a - 1) // a * a


@dim('bitfields', 2100)
def _(n):
    return HD + 'struct s { ' + nl(f'u32 m{i} : {i % 9 + 1};' for i in range(n)) + '} g; ' + RUN + nl(f'g.m{i} = {i} + z;' for i in range(n)) + 'u64 h = 5; struct s l = g; ' + nl(f'{H} l.m{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i & ((1 << (i % 9 + 1)) - 1) for i in range(n))]


@dim('struct_types', 4100)
def _(n):
    return HD + 'struct s0 { u32 a; };' + nl(f'struct s{i + 1} {{ struct s{i} *p; u32 a[{i % 5 + 1}]; }};' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} sizeof(struct s{i + 1});' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(8 + (4 * (i % 5 + 1) + 7) // 8 * 8 for i in range(n))]


@dim('struct_depth', 64, 256, must=64)
def _(n):
    s = 'u32 v;'
    for i in range(n):
        s = f'struct {{ u32 a{i}; {s} }} m{i};'
    p = '.'.join(f'm{i}' for i in reversed(range(n)))
    return HD + f'struct s {{ {s} }} g;' + RUN + f'g.{p + "." if p else ""}v = 9 + z; o[0] = sizeof(g); o[1] = ((u32 *)&g)[{n}]; return 16; }}', [4 * (n + 1), 9]


@dim('array_dims', 32, 64, must=32)
def _(n):
    return HD + 'u8 g' + ''.join(f'[{2 if i % 8 == 0 else 1}]' for i in range(n)) + ';' + RUN + 'g' + ''.join('[z + 1]' if i % 8 == 0 else '[z]' for i in range(n)) + ' = 5; o[0] = sizeof(g); o[1] = ((u8 *)&g)[sizeof(g) - 1]; return 16; }', [2 ** ((n + 7) // 8), 5]


@dim('pointer_levels', 64, 256, must=64)
def _(n):
    return HD + 'u64 g = 9;' + RUN + 'u64 p0 = 9 + z; ' + ''.join(f'u64 {"*" * (i + 1)}p{i + 1} = &p{i};\n' for i in range(n)) + f'o[0] = {"*" * n}p{n}; return 8; }}', [9]


@dim('declarator_parens', 200, 400, must=63)
def _(n):
    return HD + 'u64 ' + '(' * n + 'g' + ')' * n + ' = 6;' + RUN + 'o[0] = g + z; return 8; }', [6]


@dim('params', 260, 600, must=127)
def _(n):
    return HD + f'static u64 f(' + (','.join(f'u{8 << (i % 4)} a{i}' for i in range(n)) or 'void') + '){ u64 h = 5; ' + nl(f'{H} a{i};' for i in range(n)) + 'return h; }' + RUN + 'o[0] = f(' + ','.join(f'{i} + z' for i in range(n)) + '); return 8; }', [hsh(i % 256 if i % 4 == 0 else i for i in range(n))]


@dim('varargs', 260, 600, must=127)
def _(n):
    return HD + '#include <stdarg.h>\nstatic u64 f(u64 n, ...){ va_list l; va_start(l, n); u64 h = 5; for(u64 i = 0; i < n; i++) ' + H + ' va_arg(l, u64); va_end(l); return h; }' + RUN + f'o[0] = f({n}' + ''.join(f', {i} + z' for i in range(n)) + '); return 8; }', [hsh(range(n))]


@dim('struct_args', 64, 200)
def _(n):
    return HD + 'struct s { u64 a, b, c; }; static u64 f(' + (','.join(f'struct s a{i}' for i in range(n)) or 'void') + '){ u64 h = 5; ' + nl(f'{H} a{i}.c;' for i in range(n)) + 'return h; }' + RUN + 'struct s s; s.a = 1; s.b = 2; s.c = 3 + z; o[0] = f(' + ','.join('s' for i in range(n)) + '); return 8; }', [hsh(3 for i in range(n))]


@dim('identifier', 70000, 300000, must=4095)
def _(n):
    n = max(n, 1)
    a = 'a' * (n - 1) + 'b'
    b = 'a' * (n - 1) + 'c'
    return HD + f'u64 {a} = 3; u64 {b} = 4; struct {a} {{ u64 {a}, {b}; }};' + RUN + f'struct {a} s; s.{a} = {a} + z; s.{b} = {b}; o[0] = s.{a} * 100 + s.{b}; return 8; }}', [304]


@dim('static_locals', 2050)
def _(n):
    return HD + RUN + 'u64 h = 5; ' + nl(f'{{ static u32 s = {i + 9}; {H} s; s = 0; }}' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i + 9 for i in range(n))]


@dim('redeclarations', 2050)
def _(n):
    return HD + nl('u64 f(u64 x);' for i in range(n)) + 'u64 f(u64 x){ return x + 5; }' + RUN + 'o[0] = f(z); return 8; }', [5]


@dim('declarators', 4100)
def _(n):
    return HD + 'u32 ' + nl((f'g{i} = {i},' for i in range(n))) + 'last = 1;' + RUN + 'u64 h = 5; u32 ' + nl((f'l{i} = g{i} + 1,' for i in range(n))) + 'll = 1; ' + nl(f'{H} l{i};' for i in range(n)) + 'o[0] = h + last - ll; return 8; }', [hsh(i + 1 for i in range(n))]


# --- statements and expressions -------------------------------------------------------------------------------------
@dim('statements', 20000)
def _(n):
    x = 5
    for i in range(n):
        x = (x * 3 + i) & M
    return HD + RUN + 'u64 x = 5 + z; ' + nl(f'x = x * 3 + {i};' for i in range(n)) + 'o[0] = x; return 8; }', [x]


@dim('locals', 5000)
def _(n):
    return HD + RUN + nl(f'u{8 << (i % 4)} l{i} = {i} + z;' for i in range(n)) + 'u64 h = 5; ' + nl(f'{H} l{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i % 256 if i % 4 == 0 else i % 65536 for i in range(n))]


@dim('frame', 200000, 700000)
def _(n):
    n = max(n, 1)
    return HD + f'static u64 f(u64 x){{ u64 c = 7; u8 a[{n}]; u64 b = 9; for(u64 i = 0; i < {n}; i++) a[i] = (u8)(i + x); u64 h = c * b; for(u64 i = 0; i < {n}; i += {max(n // 50, 1)}) {H} a[i]; return h + c + b; }}' + RUN + 'o[0] = f(z); return 8; }', [(_f2(63, [i % 256 for i in range(0, n, max(n // 50, 1))]) + 16) & M]


def _f2(h, vs):
    for v in vs:
        h = (h * PRIME + v) & M
    return h


@dim('block_depth', 250, 500, must=127)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl(f'{{ u64 x{i} = x + {i}; x = x{i};' for i in range(n)) + '}' * n + 'o[0] = x; return 8; }', [n * (n - 1) // 2]


@dim('if_depth', 250, 500, must=127)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl(f'if(x == {i}){{ x++;' for i in range(n)) + '}' * n + 'o[0] = x; return 8; }', [n]


@dim('loop_depth', 130, 300, must=127)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl(f'for(u64 i{i} = z; i{i} < 1; i{i}++){{ x += {i};' for i in range(n)) + '}' * n + 'o[0] = x; return 8; }', [n * (n - 1) // 2]


@dim('switch_depth', 130, 300, must=127)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl(f'switch(x){{ default: break; case {i}: x++;' for i in range(n)) + '}' * n + 'o[0] = x; return 8; }', [n]


@dim('else_chain', 1030, must=127)
def _(n):
    return HD + 'static u64 f(u64 x){ ' + nl(f'if(x == {i}) return {i * 3}; else ' for i in range(n)) + ' return 12345; }' + RUN + f'u64 h = 5; for(u64 i = 0; i <= {n}; i++) {H} f(i); o[0] = h; return 8; }}', [hsh([i * 3 for i in range(n)] + [12345])]


@dim('cases', 4100)
def _(n):
    return HD + 'static u64 f(u64 x){ switch(x){ ' + nl(f'case {i * i}: return {i * 3};' for i in range(n)) + ' default: return 12345; } }' + RUN + f'u64 h = 5; for(u64 i = 0; i <= {n}; i++) {H} f(i * i); o[0] = h; return 8; }}', [hsh([i * 3 for i in range(n)] + [12345])]


@dim('labels', 2050)
def _(n):
    return HD + RUN + 'u64 x = z; goto l0; ' + nl((f'l{i}: x = x * 3 + {i}; goto l{i + 1};' for i in reversed(range(n))), 4) + f'l{n}: o[0] = x; return 8; }}', [_fold(n)]


@dim('parens', 1100, 3000, must=63)
def _(n):
    return HD + RUN + 'o[0] = ' + '(' * n + 'z + 3' + ')' * n + '; return 8; }', [3]


@dim('paren_ops', 260, 1000, must=63)
def _(n):
    return HD + RUN + 'o[0] = ' + nl(f'({i} + ' for i in range(n)) + 'z' + ')' * n + '; return 8; }', [n * (n - 1) // 2]


@dim('left_chain', 9000)
def _(n):
    return HD + RUN + 'o[0] = z' + nl(f' + {i}' for i in range(n)) + '; return 8; }', [n * (n - 1) // 2]


@dim('left_chain_var', 2050)
def _(n):
    return HD + RUN + 'u64 a = z + 3, b = z + 5; o[0] = z' + nl(f' + (a * b + {i})' for i in range(n)) + '; return 8; }', [n * 15 + n * (n - 1) // 2]


@dim('and_chain', 2050)
def _(n):
    return HD + RUN + 'u64 a = z + 1; o[0] = 1' + nl(f' && (a += 1)' for i in range(n)) + '; o[1] = a; return 16; }', [1, n + 1]


@dim('or_chain', 2050)
def _(n):
    return HD + RUN + 'u64 a = z; o[0] = 0' + nl(f' || (a += 1) == {n}' for i in range(n)) + '; o[1] = a; return 16; }', [1 if n else 0, n]


@dim('ternary_chain', 500, 1000, must=63)
def _(n):
    return HD + 'static u64 f(u64 x){ return ' + nl(f'x == {i} ? {i * 5} :' for i in range(n)) + ' 999; }' + RUN + f'u64 h = 5; for(u64 i = 0; i <= {n}; i++) {H} f(i); o[0] = h; return 8; }}', [hsh([i * 5 for i in range(n)] + [999])]


@dim('comma_chain', 4100)
def _(n):
    return HD + RUN + 'u64 x = z; o[0] = (' + nl(f'x = x * 3 + {i},' for i in range(n)) + 'x); return 8; }', [_fold(n)]


@dim('assign_chain', 500, 1000, must=63)
def _(n):
    return HD + f'u64 g[{n + 1}];' + RUN + nl(f'g[{i}] =' for i in range(n)) + ' z + 4; u64 h = 5; ' + f'for(u64 i = 0; i < {n}; i++) {H} g[i]; o[0] = h; return 8; }}', [hsh([4] * n)]


@dim('unary_chain', 500, 1000, must=63)
def _(n):
    return HD + RUN + 'o[0] = ' + '- ' * n + '(z + 3); o[1] = ' + '~' * n + '(z + 3); o[2] = ' + '!' * n + '(z + 3); return 24; }', [(-3 if n % 2 else 3) & M, (~3 if n % 2 else 3) & M, (3 if n == 0 else n % 2 == 0) * 1]


@dim('cast_chain', 500, 1000, must=63)
def _(n):
    return HD + RUN + 'o[0] = ' + '(u64)(u16)' * n + '(z + 0x12345); return 8; }', [0x2345 if n else 0x12345]


@dim('deref_chain', 64, 250)
def _(n):
    return HD + 'struct s { struct s *n; u64 v; } a, b;' + RUN + 'a.n = &b; b.n = &a; a.v = 1 + z; b.v = 2; struct s *p = &a; o[0] = p' + '->n' * n + '->v; return 8; }', [2 if n % 2 else 1]


@dim('call_nest', 200, 500, must=63)
def _(n):
    return HD + 'static u64 f(u64 a, u64 b){ return a * 3 + b; }' + RUN + 'o[0] = ' + 'f(' * n + 'z' + nl((f', {i})' for i in range(n)), 8) + '; return 8; }', [_fold(n)]


@dim('call_nest_right', 200, 500, must=63)
def _(n):
    h = 0
    for i in reversed(range(n)):
        h = (i * 3 + h) & M
    return HD + 'static u64 f(u64 a, u64 b){ return a * 3 + b; }' + RUN + 'o[0] = ' + nl((f'f({i}, ' for i in range(n)), 8) + 'z' + ')' * n + '; return 8; }', [h]


@dim('live_values', 130, 250, must=63)
def _(n):
    # right-nested non-commutative: n values live at once
    v = 1
    for i in reversed(range(n)):
        v = (i + 2 - v) & M
    return HD + 'static u64 f(u64 a){ return a; }' + RUN + 'u64 a = z + 2; o[0] = ' + nl((f'(f(a + {i}) - ' for i in range(n)), 8) + '(a - 1)' + ')' * n + '; return 8; }', [v]


@dim('live_doubles', 130, 250, must=63)
def _(n):
    v = 1
    for i in reversed(range(n)):
        v = i + 2 - v
    return HD + 'static double f(double a){ return a; }' + RUN + 'double a = (double)(s64)z + 2; o[0] = (u64)(s64)(' + nl((f'(f(a + {i}) - ' for i in range(n)), 8) + '(a - 1)' + ')' * n + '); return 8; }', [v & M]


@dim('sizeof_nest', 64, 200)
def _(n):
    return HD + RUN + 'o[0] = ' + 'sizeof(' * n + 'z' + ')' * n + ' + z; return 8; }', [8 if n else 0]


@dim('float_literals', 4100)
def _(n):
    return HD + RUN + 'double d = (double)(s64)z; float f = (float)(s64)z; ' + nl(f'd = d * 0.5 + {i}.25; f += {i}.5f - {i}.0f;' for i in range(n)) + 'o[0] = *(u64 *)&d; o[1] = (u64)(s64)(f * 2); return 16; }', [_fl(n), n]


def _fl(n):
    d = 0.0
    for i in range(n):
        d = d * 0.5 + (i + .25)
    return struct.unpack('<Q', struct.pack('<d', d))[0]


@dim('big_returns', 1030)
def _(n):
    return HD + 'struct s { u64 a[5]; }; static struct s f(struct s x, u64 y){ x.a[4] += y; return x; }' + RUN + 'struct s s; for(u64 i = 0; i < 5; i++) s.a[i] = z; ' + nl(f's = f(s, {i});' for i in range(n)) + 'o[0] = s.a[4]; return 8; }', [n * (n - 1) // 2]


@dim('compound_literals', 1030)
def _(n):
    return HD + 'struct s { u64 a[5]; }; static u64 f(struct s *x){ return x->a[0] + x->a[3]; }' + RUN + 'u64 h = 5; ' + nl(f'{H} f(&(struct s){{{{{i} + z, 1, 2, {i}}}}});' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(2 * i for i in range(n))]


# --- data -----------------------------------------------------------------------------------------------------------
@dim('initializer', 70000, 300000)
def _(n):
    return HD + f'u32 g[] = {{' + nl(f'{i * 3},' for i in range(n)) + '9};' + RUN + f'u64 h = 5; for(u64 i = 0; i < {n}; i++) {H} g[i]; o[0] = h; o[1] = sizeof(g); return 16; }}', [hsh(i * 3 for i in range(n)), 4 * n + 4]


@dim('local_initializer', 4100)
def _(n):
    return HD + RUN + 'u32 g[] = {' + nl(f'{i * 3} + z,' for i in range(n)) + f'9}}; u64 h = 5; for(u64 i = 0; i < {n}; i++) {H} g[i]; o[0] = h; o[1] = sizeof(g); return 16; }}', [hsh(i * 3 for i in range(n)), 4 * n + 4]


@dim('initializer_depth', 64, 250, must=32)
def _(n):
    return HD + 'u32 g' + '[1]' * n + ' = ' + '{' * n + '6' + '}' * n + ';' + RUN + 'o[0] = *(u32 *)&g; return 8; }', [6]


@dim('designators', 2050)
def _(n):
    return HD + f'u32 g[{n + 1}] = {{' + nl(f'[{n - i}] = {i * 3},' for i in range(n)) + '};' + RUN + f'u64 h = 5; for(u64 i = 0; i <= {n}; i++) {H} g[i]; o[0] = h; return 8; }}', [hsh([0] + [i * 3 for i in reversed(range(n))])]


@dim('stride', 70000, 3000000)
def _(n):
    n = n or 1
    src = HD + f'struct s {{ char c[{n}]; }}; struct s *gp; static u64 D(void *p){{ return (u64)p - 1000000; }}' + RUN + 'struct s *p, *q, *a[2]; struct {{ int x; struct s *m; }} w; u64 h = 5; s64 i = (s64)z + 3; int j = (int)z - 2; u8 b = (u8)(z + 2);'.replace('{{', '{').replace('}}', '}')
    exp = []
    def step(text, val, exprs):
        nonlocal src
        src += text + ''.join(f'{H} {e};' for e in exprs)
        exp.extend(val)
    B = 1000000
    step(f'p = (struct s *)({B} + z); q = p++;', [0, n], ['D(q)', 'D(p)'])
    step('q = ++p;', [2 * n, 2 * n], ['D(q)', 'D(p)'])
    step('q = p--;', [2 * n, n], ['D(q)', 'D(p)'])
    step('q = --p;', [0, 0], ['D(q)', 'D(p)'])
    step('gp = p; q = gp++; gp++;', [0, 2 * n], ['D(q)', 'D(gp)'])
    step('--gp; q = gp--;', [n, 0], ['D(q)', 'D(gp)'])
    step('a[0] = a[1] = p; a[(int)z + 1]++; --a[z];', [M & -n, n], ['D(a[0])', 'D(a[1])'])
    step('w.m = p; w.m += 3; w.m -= 1; w.m++;', [3 * n], ['D(w.m)'])
    step('q = p + i; q = q + j;', [n], ['D(q)'])
    step('q = &p[i]; q = i + q; q -= j; q += b;', [10 * n], ['D(q)'])
    step('q = p + 1; q = q - 3; q = &q[5]; q = &1[q];', [4 * n], ['D(q)'])
    step('', [4, M & -4, 1], ['(q - p)', '(p - q)', '(q > p)'])
    src += 'o[0] = h; o[1] = sizeof(struct s); return 16; }'
    return src, [hsh(exp), n]


@dim('element_copy', 70000, 300000)
def _(n):
    n = n or 1
    fill = f'for(u64 i = 0; i < {n}; i++) x.c[i] = (u8)(i * 7 + (i >> 8) + z + 1);'
    src = HD + f'struct s {{ u8 c[{n}]; }}; struct s g, ga[3]; struct t {{ u32 a; struct s m; u8 e; }} gt; static u64 S(u8 *p){{ u64 h = 5; for(u64 i = 0; i < {n}; i++) {H} p[i]; return h; }} static struct s R(struct s v, u64 k){{ v.c[0] += (u8)k; return v; }}'
    src += RUN + 'static struct s x, y; u8 guard = 9; struct s *p = &y; static struct t t; static struct s z0; ' + fill
    src += 'y = x; o[0] = S(y.c); g = *p; o[1] = S(g.c); ga[z + 1] = g; o[2] = S(ga[1].c) + ga[0].c[z] + ga[2].c[z]; t.m = ga[1]; t.e = 77; gt = t; o[3] = S(gt.m.c) + gt.e; *p = z0; y = R(gt.m, z + 1); o[4] = S(y.c); o[5] = S(R(*p, z).c); o[6] = guard; o[7] = S(z0.c); *p = (struct s){5}; o[8] = S(y.c); return 72; }'
    d = [(i * 7 + (i >> 8) + 1) & 255 for i in range(n)]
    e = [(d[0] + 1) & 255] + d[1:]
    return src, [hsh(d), hsh(d), hsh(d), (hsh(d) + 77) & M, hsh(e), hsh(e), 9, hsh([0] * n), hsh([5] + [0] * (n - 1))]


@dim('member_offset', 70000, 3000000)
def _(n):
    st = f'struct s {{ u8 c[{n + 1}]; u8 a; u16 b; u32 d; u64 e; float f; double g; u32 w : 5, v : 9; }} '
    def use(x):
        return f'{x}a = (u8)(z + 200); {x}b = (u16)(z + 60001); {x}d = (u32)z + 4000000001u; {x}e = z + 0x123456789abcdefull; {x}f = 1.5f + (float)z; {x}g = 2.25 + (double)z; {x}w = (u32)z + 21; {x}v = (u32)z + 300; {x}d += 3; {x}a++; --{x}e; {x}v |= 1; {x}g *= 2; {H} {x}a; {H} {x}b; {H} {x}d; {H} {x}e; {H} ({x}f * 4); {H} ({x}g * 4); {H} {x}w; {H} {x}v; {H} ((u8 *)&{x}e - (u8 *)&{x}c[0]); {H} {x}c[{n}];'
    al = lambda o, a: (o + a - 1) // a * a
    o = n + 1
    o = al(al(al(o + 1, 2) + 2, 4) + 4, 8)
    vals = [201, 60001, 4000000004, 0x123456789abcdee, 6, 18, 21, 301, o, 0]
    src = HD + st + 'g; ' + RUN + f'u64 h = 5; static struct s t; struct s *p = &t; ' + use('g.') + use('t.') + f't.c[{n}] = 0;' + use('p->') + (f'struct s l; l.c[{n}] = (u8)z;' + use('l.') if n < 50000 else '') + 'o[0] = h; return 8; }'
    return src, [hsh(vals * (4 if n < 50000 else 3))]


@dim('array_bytes', 300000, 3000000)
def _(n):
    return HD + f'u8 a[{n + 1}] = {{5}}; u8 b[{n + 1}]; u64 c = 3; u8 d[{n + 1}] = {{[{n}] = 6}};' + RUN + f'b[{n}] = 7; o[0] = a[0] + a[{n}] + b[0] + b[{n}] + c + d[0] + d[{n}]; o[1] = sizeof(a); return 16; }}', [(5 if n else 10) + (7 if n else 14) + 3 + (6 if n else 12), n + 1]


@dim('string', 70000, 300000)
def _(n):
    s = ''.join(chr(97 + i % 26) for i in range(n))
    return HD + f'u8 g[] = "{s}"; u8 *p = "{s}x";' + RUN + f'u64 h = 5; for(u64 i = 0; i <= {n}; i++){{ {H} g[i]; {H} p[i]; }} o[0] = h; o[1] = sizeof(g); o[2] = p[{n + 1}]; return 24; }}', [hsh(x for i in range(n + 1) for x in ((97 + i % 26, 97 + i % 26) if i < n else (0, 120))), n + 1, 0]


@dim('string_pieces', 2050)
def _(n):
    return HD + 'u8 g[] = ' + nl(f'"p{i % 10}"' for i in range(n)) + '"";' + RUN + f'u64 h = 5; for(u64 i = 0; i < sizeof(g); i++) {H} g[i]; o[0] = h; return 8; }}', [hsh(list(b''.join(b'p%d' % (i % 10) for i in range(n))) + [0])]


@dim('string_literals', 4100)
def _(n):
    return HD + 'static u64 l(u8 *s){ u64 h = 7; while(*s) h = h * 31 + *s++; return h; }' + RUN + 'u64 h = 5; ' + nl((f'{H} l("str{i}");' for i in range(n)), 8) + 'o[0] = h; return 8; }', [hsh(_s31(f'str{i}') for i in range(n))]


def _s31(s):
    h = 7
    for c in s.encode():
        h = (h * 31 + c) & M
    return h


# --- source text ----------------------------------------------------------------------------------------------------
@dim('lines', 140000, 1000000)
def _(n):
    return HD.rstrip() + '\n' * n + RUN + 'o[0] = z + __LINE__; return 8; }', [max(n, 0) + (1 if n else 1)]


@dim('line_length', 140000, 1000000)
def _(n):
    return HD + ' ' * n + RUN + ' ' * n + 'o[0] = z + __LINE__;' + ' ' * n + 'return 8; }', [2]


@dim('comment', 140000, 1000000)
def _(n):
    return HD + '/*' + 'x*/ /*'[:0] + '*' * n + '*/' + RUN + '//' + '/' * n + '\no[0] = z + 4; /*' + '\n' * (n % 70000) + '*/ o[1] = __LINE__; return 16; }', [4, 3 + n % 70000]


@dim('splices', 20000)
def _(n):
    return HD + RUN + 'o[0] = z + ' + '\\\n' * n + '4; o[1] = __LINE__; return 16; }', [4, n + 2]


@dim('tokens_on_line', 70000, 200000)
def _(n):
    return HD + RUN + ';' * n + 'o[0] = z + 4; return 8; }', [4]


@dim('macro_body', 20000, 70000)
def _(n):
    return HD + '#define A(x) x ' + ''.join(f'+ {i} ' for i in range(n)) + '\n' + RUN + 'o[0] = A(z); return 8; }', [n * (n - 1) // 2]


@dim('macro_count', 9000)
def _(n):
    return HD + ''.join(f'#define M{i} {i * 3}\n' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} M{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i * 3 for i in range(n))]


@dim('macro_undef', 2050)
def _(n):
    return HD + ''.join(f'#define M {i * 3}\nu32 g{i} = M;\n#undef M\n' for i in range(n)) + 'enum { M = 4 };' + RUN + 'u64 h = 5; ' + nl(f'{H} g{i};' for i in range(n)) + 'o[0] = h + M; return 8; }', [(hsh(i * 3 for i in range(n)) + 4) & M]


@dim('macro_chain', 1030, must=500)
def _(n):
    return HD + ''.join(f'#define M{i} (M{i + 1} + 1)\n' for i in range(min(n, 60))) + f'#define M{min(n, 60)} z\n' + ''.join(f'#define N{i} N{i + 1}\n' for i in range(n)) + f'#define N{n} z\n' + RUN + 'o[0] = M0; o[1] = N0; return 16; }', [min(n, 60), 0]


@dim('macro_nest', 60, 200)
def _(n):
    return HD + '#define I(x) (x + 1)\n' + RUN + 'o[0] = ' + 'I(' * n + 'z' + ')' * n + '; return 8; }', [n]


@dim('macro_params', 260, 1000, must=127)
def _(n):
    n = max(n, 1)
    return HD + '#define F(' + ','.join(f'p{i}' for i in range(n)) + ') ' + '^'.join(f'(p{i})' for i in range(n)) + '\n' + RUN + 'o[0] = F(' + ','.join(f'{i * 7}' for i in range(n)) + ') + z; return 8; }', [_xor(n)]


def _xor(n):
    x = 0
    for i in range(n):
        x ^= i * 7
    return x


@dim('macro_argument', 20000, 70000)
def _(n):
    return HD + '#define F(x) (x)\n#define S(x) #x\n' + RUN + 'o[0] = F(z' + nl(' + 1' for i in range(n)) + '); o[1] = sizeof(S(' + 'ab ' * n + ')); return 16; }', [n, max(n * 3, 1)]


@dim('va_args', 2050)
def _(n):
    return HD + '#define F(...) __VA_ARGS__\n#define C(...) sizeof((u8[]){__VA_ARGS__})\n' + RUN + f'u32 g[] = {{ F(' + nl(f'{i},' for i in range(n)) + '7) }; o[0] = sizeof(g); o[1] = C(F(1' + ',1' * n + ')); return 16; }', [4 * n + 4, n + 1]


@dim('paste_chain', 500)
def _(n):
    return HD + '#define P(a, b) a##b\n#define L ' + '##'.join(['a'] * (n + 1)) + '\nu64 L = 4; ' + RUN + 'o[0] = z + ' + 'a' * (n + 1) + '; return 8; }', [4]


@dim('if_nest', 300, 1000, must=63)
def _(n):
    return HD + '#if 1\n' * n + 'u64 g = 4;\n' + ''.join('#else\nbad\n#endif\n' if i % 2 else '#endif\n' for i in range(n)) + RUN + 'o[0] = g + z; return 8; }', [4]


@dim('elif_chain', 2050)
def _(n):
    return HD + '#if 0\n' + ''.join(f'#elif {n} == {i + 1}\nu64 g = {i + 1};\n' for i in range(n)) + '#else\nu64 g = 0;\n#endif\n' + RUN + 'o[0] = g + z; return 8; }', [n]


@dim('if_skipped', 2050)
def _(n):
    return HD + '#if 0\n' + '#if 1\n#else\n#endif\n' * n + '#else\nu64 g = 4;\n#endif\n' + RUN + 'o[0] = g + z; return 8; }', [4]


@dim('if_expression', 2050, must=255)
def _(n):
    return HD + '#if 0' + ' + 1' * n + f' == {n} && (' + '(' * min(n, 60) + '1' + ')' * min(n, 60) + ')\nu64 g = 4;\n#endif\n' + RUN + 'o[0] = g + z; return 8; }', [4]


@dim('if_parens', 500, 1500, must=63)
def _(n):
    return HD + '#if ' + '(1 + ' * n + '0' + ')' * n + f' == {n}\nu64 g = 4;\n#endif\n' + RUN + 'o[0] = g + z; return 8; }', [4]


@dim('if_unary', 500, 1500, must=63)
def _(n):
    return HD + '#if ' + '- ' * (2 * n) + '3 == 3 && ' + '!' * (2 * n) + '1 && ' + '~' * (2 * n) + '5 == 5\nu64 g = 4;\n#endif\n' + RUN + 'o[0] = g + z; return 8; }', [4]


@dim('include_depth', 190, 1000, must=15)
def _(n):
    f = {f'i{i}.h': (f'#include "i{i + 1}.h"\n' if i + 1 < n else '') + f'u32 g{i} = {i};\n' for i in range(n)}
    f['a.c'] = HD + ('#include "i0.h"\n' if n else '') + RUN + 'u64 h = 5; ' + nl(f'{H} g{i};' for i in range(n)) + 'o[0] = h; return 8; }'
    return f, [hsh(range(n))]


@dim('includes', 1030)
def _(n):
    f = {f'i{i}.h': f'u32 g{i} = {i};\n' for i in range(n)}
    f['a.c'] = HD + ''.join(f'#include "i{i}.h"\n' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} g{i};' for i in range(n)) + 'o[0] = h; return 8; }'
    return f, [hsh(range(n))]


@dim('include_same', 1030, 1030)
def _(n):
    return {'i.h': '1 +\n', 'p.h': '#pragma once\nu64 q = 8;\n', 'a.c': HD + '#include "p.h"\n' * n + ('u64 q = 8;\n' if not n else '') + RUN + 'o[0] =\n' + '#include "i.h"\n' * n + 'z + q; return 8; }'}, [n + 8]


@dim('embed', 70000, 300000)
def _(n):
    d = bytes((i * 7) & 255 for i in range(n + 1))
    return {'e.bin': d, 'a.c': HD + 'u8 g[] = {\n#embed "e.bin"\n};' + RUN + f'u64 h = 5; for(u64 i = 0; i < sizeof(g); i++) {H} g[i]; o[0] = h; return 8; }}'}, [hsh(d)]


@dim('pragma_pack', 500)
def _(n):
    return HD + '#pragma pack(push, 1)\n' * n + 'struct s { u8 a; u64 b; };\n' + '#pragma pack(pop)\n' * n + 'struct t { u8 a; u64 b; };' + RUN + 'o[0] = sizeof(struct s) + z; o[1] = sizeof(struct t); return 16; }', [9 if n else 16, 16]


# --- program --------------------------------------------------------------------------------------------------------
@dim('files', 260, 600)
def _(n):
    f = {f'f{i}.c': HD + f'static u64 s = {i}; u64 g{i} = {i}; u64 f{i}(u64 x){{ return x * 3 + s++ + g{i} - {i}; }}' for i in range(n)}
    f['a.c'] = HD + RUN + 'u64 h = z; ' + nl((f'h = f{i}(h);' for i in range(n)), 4) + 'o[0] = h; return 8; }'
    f['a.c'] = ''.join(f'unsigned long long f{i}(unsigned long long x);\n' for i in range(n)) + f['a.c']
    return f, [_fold(n)]


@dim('static_in_files', 130, 300)
def _(n):
    f = {f'f{i}.c': 'static int v = %d; static int *get(void){ return &v; } int *p%d = &v; int x%d(void){ return *get(); }' % (i, i, i) for i in range(n)}
    f['a.c'] = HD + ''.join(f'extern int *p{i}; int x{i}(void);\n' for i in range(n)) + RUN + 'u64 h = 5; ' + nl((f'*p{i} += 10; {H} x{i}();' for i in range(n)), 4) + 'o[0] = h; return 8; }'
    return f, [hsh(i + 10 for i in range(n))]


@dim('exports', 2050)
def _(n):
    return HD + nl(f'__declspec(dllexport) u64 e{i}(u64 x){{ return x + {i}; }}' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} e{i}(z);' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(range(n))]


@dim('tls', 500)
def _(n):
    return HD + nl(f'__declspec(thread) u32 t{i} = {i + 3};' for i in range(n)) + RUN + 'u64 h = 5; ' + nl(f'{H} t{i};' for i in range(n)) + 'o[0] = h; return 8; }', [hsh(i + 3 for i in range(n))]


@dim('try_depth', 60, 200)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl(f'__try {{ x = x * 3 + {i};' for i in range(n)) + '} __except(1) { x = 0; }' * n + ' o[0] = x; return 8; }', [_fold(n)]


@dim('try_count', 500)
def _(n):
    return HD + RUN + 'u64 x = z; ' + nl((f'__try {{ x = x * 3 + {i}; }} __except(1) {{ x = 0; }}' for i in range(n)), 4) + ' o[0] = x; return 8; }', [_fold(n)]


@dim('asm_instructions', 4100)
def _(n):
    return HD + RUN + 'u64 x = z; __asm__ { mov rax, x\n ' + ''.join(f'add rax, {i % 120}\n' for i in range(n)) + ' mov x, rax\n } o[0] = x; return 8; }', [sum(i % 120 for i in range(n))]


@dim('asm_blocks', 500)
def _(n):
    return HD + RUN + 'u64 x = z; ' + ''.join(f'__asm__ {{ add x, {i % 120}\n }} x = x * 3;\n' for i in range(n)) + ' o[0] = x; return 8; }', [_asmb(n)]


def _asmb(n):
    x = 0
    for i in range(n):
        x = (x + i % 120) * 3 & M
    return x


@dim('typeof_generic', 500)
def _(n):
    return HD + nl(f'struct g{i} {{ u32 x; }};' for i in range(n)) + RUN + 'u64 a = z; o[0] = _Generic(a, ' + nl(f'struct g{i}: {i},' for i in range(n)) + ' default: 777); ' + (f'struct g{n - 1} q; q.x = 1; o[1] = _Generic(q, ' + nl(f'struct g{i}: {i},' for i in range(n)) + ' default: 777);' if n else 'o[1] = 777;') + ' return 16; }', [777, n - 1 if n else 777]


@dim('attributes', 300)
def _(n):
    return HD + '__declspec(noinline) ' * n + 'static u64 f(u64 x){ return x + 3; }' + RUN + 'o[0] = f(z); return 8; }', [3]


@dim('specifiers', 300)
def _(n):
    return HD + 'const ' * n + 'volatile ' * n + 'u64 g = 3;' + RUN + 'o[0] = g + z; return 8; }', [3]


@dim('out_name', 200, 240)
def _(n):
    return HD + RUN + 'o[0] = z + 3; return 8; }', [3]


def ladder(top):
    s = {0, 1, 2, 3, 5}
    k = 4
    while k <= top:
        s |= {k - 1, k, k + 1}
        k *= 2
    k = 10
    while k < top:
        s |= {k - 1, k, k + 1} if k < 2000 else set()
        k *= 10
    s |= {top}
    return sorted(x for x in s if 0 <= x <= top)


MODES = [('', '/quiet /dll /no_entry /no_stdlib'), ('nodebug', '/quiet /dll /no_entry /no_stdlib /no_debug')]


def body(c):
    only = os.environ.get('DIMS', '').split(',') if os.environ.get('DIMS') else None
    c.dims = {}
    jobs = []
    for name, (f, top, th, must) in DIMS.items():
        if only and name not in only:
            continue
        t = th if c.thorough else top
        for n in ladder(t):
            for mi, (mn, args) in enumerate(MODES):
                if n < 60 and mi == 0 and n not in (1, 3) and not c.thorough:
                    continue
                jobs.append((name, f, n, mn, args, must if must is not None else top))
    jobs.sort(key=lambda j: -j[2])

    def one(j):
        name, f, n, mn, args, must = j
        p, exp = f(n)
        if not isinstance(p, dict):
            p = {'a.c': p}
        out = 'a.dll' if name != 'out_name' else 'x' * max(n, 1) + '.dll'
        names = ['a.c'] + [x for x in p if x.endswith('.c') and x != 'a.c']
        a = ' '.join(names) + ' ' + args + ' /out ' + out
        t0 = time.time()
        r = c.e.compile(p, a, timeout=60)
        key = f'{name}/{n}/{mn}'
        c.count(1)
        rep = {**{k: v for k, v in list(p.items())[:40]}, 'cmdline.txt': 'hlc ' + a}
        if os.environ.get('SLOW') and time.time() - t0 > float(os.environ['SLOW']):
            print('slow', key, round(time.time() - t0, 1))
        dll = r.files.get(out)
        if r.kind == 'exit' and r.code and not dll and b'rror' in r.out and b'ASSERT FIRED' not in r.out:
            if n <= must:
                c.violation(key, f'a program within the limits is rejected: {r.out[-400:].decode("latin1")}', rep)
            else:
                with c.lock:
                    lo = c.dims.get(name)
                    c.dims[name] = min(n, lo) if lo else n
            return
        if not (r.kind == 'exit' and r.code == 0 and dll):
            c.violation(key, f'the compiler fails without a diagnostic: {r.kind} {r.code:#x} rip={c.build.symbol(r.rip) if r.rip else 0} {r.errs} {r.out[-400:].decode("latin1")}', rep)
            return
        r = c.e.run_dll(dll, inp=hx.u64(0), bufsize=4096, timeout=20, stack=64 << 20)
        got = struct.unpack(f'<{len(exp)}Q', r.buf[:8 * len(exp)]) if r.kind == 'exit' else None
        if got != tuple(exp):
            c.violation(key, f'wrong result {got and [hex(x) for x in got]} instead of {[hex(x) for x in exp]} ({r.kind} {r.code} rip={r.rip:#x} {r.errs})', rep)
        c.seen(key)

    c.e.map(one, jobs)
    c.cov['dimensions'] = len(DIMS)
    c.cov['first_clean_rejection'] = c.dims
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'for each dimension one family of programs with a parameter, at every size of the ladder (0..5, every power of two and of ten and its neighbours, the bound), with and without debug information; the expected result is computed from the parameter. Non-trivial: compiled, ran, and gave the expected hash.'
    c.sample({'dimensions': sorted(DIMS)})
    c.assumptions += ['sizes between the ladder values behave as their neighbours']


if __name__ == '__main__':
    main('C26', 'exploration', body, need_ref=False)
