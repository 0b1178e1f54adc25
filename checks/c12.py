from common import *
import itertools

# ---------------------------------------------------------------- one translation unit: scopes and shadowing
# A level binds the ordinary identifier n_@ in one of these ways; every use is written for the binding that C says is visible.
T = ['s16', 'u8', 's64', 's32', 'u16']   # object type by level, all different sizes/signedness


def use(b, n):
    """observation of the entity bound by b=(kind, level)"""
    k, l = b
    if k in ('var', 'static', 'extern', 'param'):
        return f'O({n}); O(sizeof({n})); {n} += {l + 2}; O({n}); '
    if k == 'enum':
        return f'O({n}); O(sizeof(char[{n}])); '
    if k == 'typedef':
        return f'O(sizeof({n})); {{ {n} y = -1; O(y); O(sizeof y); O(({n})-3); }} '
    if k == 'func':
        return f'O({n}()); O({n}()); O({n} == p{n}); '
    if k == 'fptr':
        return f'O({n}()); O(sizeof({n})); '
    return ''


def bind(k, l, n):
    """declaration text of kind k at level l"""
    t = T[l]
    if k == 'var':
        return f'{t} {n} = {l * 10 + 100}; '
    if k == 'static':
        return f'static {t} {n} = {l * 10 + 101}; '
    if k == 'enum':
        return f'enum {{ q{n}{l} = 7, {n} = {l * 10 + 30} }}; '
    if k == 'typedef':
        return f'typedef {t} {n}; '
    if k == 'fptr':
        return f'int (*{n})(void) = other_@; '
    if k == 'extern':
        return f'extern {T[0]} {n}; '
    if k == 'func':
        return f'int {n}(void); '
    return ''


FILE = ['none', 'var', 'static', 'func', 'sfunc', 'typedef', 'enum', 'extlater', 'tent']


def file_decl(k, n):
    if k == 'var':
        return f's16 {n} = 100;', '', ('var', 0)
    if k == 'static':
        return f'static s16 {n} = 100;', '', ('var', 0)
    if k == 'tent':
        return f's16 {n};', f's16 {n};', ('var', 0)
    if k == 'extlater':
        return f'extern s16 {n};', f's16 {n} = 77;', ('var', 0)
    if k == 'func':
        return f'int c{n}; int {n}(void){{ return ++c{n}; }} int (*p{n})(void) = {n};', '', ('func', 0)
    if k == 'sfunc':
        return f'static int {n}(void); static int (*p{n})(void) = {n};', f'static int {n}(void){{ static int c; return c += 3; }}', ('func', 0)
    if k == 'typedef':
        return f'typedef s16 {n};', '', ('typedef', 0)
    if k == 'enum':
        return f'enum {{ {n} = 30 }};', '', ('enum', 0)
    return '', '', None


BLK = ['none', 'var', 'static', 'enum', 'typedef', 'fptr', 'extern', 'func']


def ok(k, f, vis):
    """may block kind k be declared when the file scope binds f and the visible binding is vis?"""
    if k == 'extern':
        # prior visible declaration must be the file-scope one for internal linkage
        return f in ('var', 'tent', 'extlater') or (f == 'static' and vis == ('var', 0))
    if k == 'func':
        return f == 'func' or (f == 'sfunc' and vis == ('func', 0))
    return True


WRAP = {'block': ('{ ', '}'), 'if': ('if(one_){ ', '}'), 'else': ('if(!one_) ; else { ', '}'), 'while': ('for(int w_ = 0; w_ < 2; w_++){ ', '}'), 'do': ('{ int d_ = 0; do { ', '} while(d_++ < 1); }'),
        'switch': ('switch(one_){ case 1: { ', '} }'), 'label': ('lab_: { ', '}')}


def shadow(f, p, b1, b2, b3, w=('block', 'block', 'block'), n='n_@'):
    pre, post, vis = file_decl(f, n)
    outer = vis
    body = ''
    par = 'void'
    if p == 'param':
        vis = ('param', 1)
        par = f'{T[1]} {n}'
    if vis:
        body += use(vis, n)
    levels = [(b1, 2), (b2, 3), (b3, 4)]
    stack = [vis]
    closes = []
    for (b, l), wr in zip(levels, w):
        a, z = WRAP[wr]
        body += a.replace('lab_', f'lab{l}')
        if stack[-1]:
            body += use(stack[-1], n)          # before the declaration the outer binding is still visible
        cur = stack[-1]
        if b != 'none':
            if not ok(b, f, cur):
                return None
            body += bind(b, l, n)
            cur = (b, l if b not in ('extern', 'func') else 0)
            body += use(cur, n)
        closes.append(z)
        stack.append(cur)
    for i in range(3, 0, -1):
        body += use(stack[i], n) if stack[i] else ''
        body += closes[i - 1] + ' '
    body += use(stack[0], n) if stack[0] else ''
    call = f'f_@({41 if p == "param" else ""}); '
    decl = f'static int other_@(void){{ return 4242; }}\n{pre}\nstatic void f_@({par}){{ volatile int one_ = 1; {body} }}\n{post}'
    body = call + call + (use(outer, n) if outer else '')
    return decl, body


def shadow_items(th, th2):
    for f in FILE:
        for p in ('none', 'param'):
            for b1 in BLK:
                for b2 in BLK:
                    for b3 in (BLK if th else ['none', 'var', 'typedef', 'enum']):
                        if not th and b3 != 'none' and (b1 == 'none' or b2 == 'none'):
                            continue
                        r = shadow(f, p, b1, b2, b3)
                        if r:
                            yield (('shadow', f, p, b1, b2, b3), r[0], r[1])
    for w in itertools.product(WRAP, repeat=2):
        for f, b1, b2 in itertools.product(FILE, BLK, BLK) if th2 else (('var', 'var', 'var'), ('typedef', 'var', 'typedef'), ('var', 'none', 'typedef'), ('func', 'var', 'none'), ('enum', 'static', 'enum'), ('typedef', 'none', 'var')):
            r = shadow(f, 'none', b1, b2, 'none', (w[0], w[1], 'block'))
            if not r:
                continue
            yield (('wrap', f, b1, b2) + w, r[0], r[1])


# ---------------------------------------------------------------- tags
TG = ['none', 'def', 'fwd', 'fwddef', 'ref', 'enumdef', 'uniondef', 'nested', 'indecl', 'insizeof', 'incast']


def tag_bind(k, l, n):
    """(text, kind of the tag now visible or None to keep, complete?)"""
    sz = l * 2 + 1
    if k == 'def':
        return f'struct {n} {{ char a{l}[{sz}]; }}; ', ('struct', True)
    if k == 'fwd':
        return f'struct {n}; struct {n} *q{l}; ', ('struct', False)
    if k == 'fwddef':
        return f'struct {n}; struct {n} *q{l} = 0; struct {n} {{ char a{l}[{sz}]; struct {n} *self; }}; O(sizeof *q{l}); O(sizeof *q{l}->self); ', ('struct', True)
    if k == 'enumdef':
        return f'enum {n} {{ e{n}{l} = {sz} }}; O(e{n}{l}); ', ('enum', True)
    if k == 'uniondef':
        return f'union {n} {{ char a{l}[{sz}]; char b; }}; ', ('union', True)
    if k == 'nested':
        return f'struct o{n}{l} {{ struct {n} {{ char a{l}[{sz}]; }} m; char c; }}; O(sizeof(struct o{n}{l})); ', ('struct', True)
    if k == 'indecl':
        return f'struct {n} {{ char a{l}[{sz}]; }} v{l}; O(sizeof v{l}); ', ('struct', True)
    if k == 'insizeof':
        return f'O(sizeof(struct {n} {{ char a{l}[{sz}]; }})); ', ('struct', True)
    if k == 'incast':
        return f'O(((struct {n} {{ char a{l}; char b; short c[{sz}]; }} *)0) + 1); ', ('struct', True)
    return '', None


def tag_items(th):
    n = 't_@'
    for f in ('none', 'def', 'uniondef', 'enumdef', 'deflate'):
        for b1 in TG:
            for b2 in TG:
                for b3 in (('none', 'def', 'ref') if not th else TG):
                    pre, post = '', ''
                    vis = None
                    if f == 'deflate':
                        post = f'struct {n} {{ char z[23]; }};'
                        # later file-scope definitions complete the type for earlier uses by design; only refer to it through pointers
                        pre = f'struct {n};'
                        vis = None
                        continue
                    if f != 'none':
                        pre, vis = tag_bind(f, 0, n)
                        pre = pre.replace(f'O(e{n}0); ', '')
                    body = ''
                    stack = [vis]
                    bad = False

                    def u(v):
                        return f'O(sizeof({v[0]} {n})); ' if v and v[1] else ''
                    for b, l in ((b1, 1), (b2, 2), (b3, 3)):
                        body += '{ ' + u(stack[-1])
                        if b == 'ref':
                            if not stack[-1] or stack[-1][0] == 'enum' or not stack[-1][1]:
                                bad = True
                                break
                            body += f'{stack[-1][0]} {n} *r{l} = 0; O(sizeof *r{l}); O(r{l} + 1); '
                            stack.append(stack[-1])
                            continue
                        if b == 'none' and l < 3 and (b2 != 'none' or b3 != 'none') and l == 2 and b3 == 'none':
                            pass
                        t, v = tag_bind(b, l, n)
                        body += t
                        stack.append(v or stack[-1])
                        body += u(stack[-1])
                    if bad:
                        continue
                    for i in range(3, 0, -1):
                        body += u(stack[i]) + '} '
                    body += u(stack[0])
                    yield (('tag', f, b1, b2, b3), pre, body)


# ---------------------------------------------------------------- scope starts, name spaces, ambiguities
# file-scope and block-scope types of the same name that are nearly the same: (definition of @, statements on x)
NEAR = [
    ('struct @ { int a; int b; };', 'x.a = -5; x.b = 6;'),
    ('struct @ { int b; int a; };', 'x.a = -5; x.b = 6;'),
    ('struct @ { int a; short b; };', 'x.a = -5; x.b = 70000;'),
    ('struct @ { int a; unsigned b; };', 'x.a = -5; x.b = -6; O(x.b / 2);'),
    ('struct @ { int a; float b; };', 'x.a = -5; x.b = 6;'),
    ('struct @ { int a; int b; int c; };', 'x.a = -5; x.b = 6; x.c = 7;'),
    ('struct @ { int a; };', 'x.a = 12;'),
    ('struct @ { int a; int b[1]; };', 'x.a = 12; x.b[0] = 3;'),
    ('struct @ { int a; int b[2]; };', 'x.a = 12; x.b[1] = 3; O(sizeof x.b);'),
    ('struct @ { int a; char b[4]; };', 'x.a = 12; x.b[1] = 3; O(sizeof x.b);'),
    ('union @ { int a; int b; };', 'x.a = -5; O(x.b); x.b = 6;'),
    ('struct @ { int a : 3, b : 5; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { int a : 4, b : 4; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { int a : 4, b : 5; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { int a : 3, b : 6; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { unsigned a : 3; int b : 5; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { int a : 3; int : 2; int b : 5; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { int a : 3; int : 0; int b : 5; };', 'x.a = -5; x.b = 13; O(x.a); O(x.b);'),
    ('struct @ { char a; int b; };', 'x.a = 3; x.b = 4;'),
    ('struct @ { char a; char pad; int b; };', 'x.a = 3; x.b = 4;'),
    ('struct @ { struct { char a; } ; int b; };', 'x.a = 3; x.b = 4;'),
    ('#pragma pack(push, 1)\nstruct @ { char a; int b; };\n#pragma pack(pop)\n', 'x.a = 3; x.b = 4;'),
    ('#pragma pack(push, 2)\nstruct @ { char a; int b; };\n#pragma pack(pop)\n', 'x.a = 3; x.b = 4;'),
    ('struct @ { int b; char a; };', 'x.a = 3; x.b = 4;'),
    ('#pragma pack(push, 1)\nstruct @ { int b; char a; };\n#pragma pack(pop)\n', 'x.a = 3; x.b = 4;'),
    ('#pragma pack(push, 2)\nstruct @ { int b; char a; };\n#pragma pack(pop)\n', 'x.a = 3; x.b = 4;'),
    ('struct @ { int b; char a; _Alignas(1) char c[3]; };', 'x.a = 3; x.b = 4;'),
    ('struct @ { _Alignas(8) int a; int b; };', 'x.a = 3; x.b = 4; O(_Alignof(x));'),
    ('struct @ { _Alignas(16) int a; int b; };', 'x.a = 3; x.b = 4; O(_Alignof(x));'),
    ('struct @ { int (*a)(int); int b; };', 'x.a = h_; x.b = 4; O(x.a(3)); x.a = 0;'),
    ('struct @ { float (*a)(float); int b; };', 'x.a = k_; x.b = 4; O(x.a(3.5f) * 4); x.a = 0;'),
    ('struct @ { int (*a)(int, int); int b; };', 'x.a = h2_; x.b = 4; O(x.a(3, 4)); x.a = 0;'),
    ('struct @ { short *a; int b; };', 'short q[2] = { 5, 6 }; x.a = q; x.b = 4; O(*x.a); O(x.a[1]); O(sizeof *x.a); x.a = 0;'),
    ('struct @ { int *a; int b; };', 'int q[2] = { 5, 6 }; x.a = q; x.b = 4; O(*x.a); O(x.a[1]); O(sizeof *x.a); x.a = 0;'),
    ('struct @ { int **a; int b; };', 'int q = 5, *w = &q; x.a = &w; x.b = 4; O(**x.a); O(sizeof **x.a); x.a = 0;'),
    ('struct @ { struct @ *a; int b; };', 'struct @ y; y.b = 19; x.a = &y; x.b = 4; O(x.a->b); O(sizeof *x.a); x.a = 0;'),
    ('struct @ { struct @ *a; short b; };', 'struct @ y; y.b = 19; x.a = &y; x.b = 4; O(x.a->b); O(sizeof *x.a); x.a = 0;'),
    ('struct u@; struct @ { struct u@ *a; int b; }; struct u@ { char c[3]; };', 'struct u@ y; y.c[1] = 19; x.a = &y; x.b = 4; O(x.a->c[1]); O(sizeof *x.a); x.a = 0;'),
    ('struct u@ { char c[5]; }; struct @ { struct u@ *a; int b; };', 'struct u@ y; y.c[1] = 19; x.a = &y; x.b = 4; O(x.a->c[1]); O(sizeof *x.a); x.a = 0;'),
    ('struct u@ { int c; }; struct @ { struct u@ a; int b; };', 'x.a.c = 3; x.b = 4;'),
    ('struct u@ { float c; }; struct @ { struct u@ a; int b; };', 'x.a.c = 3; x.b = 4;'),
    ('struct u@ { char c, d, e, f; }; struct @ { struct u@ a; int b; };', 'x.a.c = 3; x.b = 4; O(sizeof x.a);'),
    ('enum @ { X@ = 5, Y@ = 9 };', 'x = Y@; O(X@ * 1000 + Y@);'),
    ('enum @ { X@ = 6, Y@ = 9 };', 'x = Y@; O(X@ * 1000 + Y@);'),
    ('enum @ { Y@ = 5, X@ = 9 };', 'x = Y@; O(X@ * 1000 + Y@);'),
]


def near_items():
    for i, (d1, u1) in enumerate(NEAR):
        for j, (d2, u2) in enumerate(NEAR):
            if not (i < 42 and j < 42 or i >= 42 and j >= 42):
                continue
            kind = lambda d: 'union' if 'union @' in d else 'enum' if 'enum @' in d else 'struct'
            name = lambda t: t.replace('@', 't_@').replace('h_', 'h_@').replace('h2_', 'g_@').replace('k_', 'k_@')

            def obs(d, u):
                t = kind(d) + ' t_@'
                return f'{{ {t} x; Z_@(&x, sizeof x); {name(u)} O(sizeof x); O(sizeof({t})); H_@(&x, sizeof x); }}'
            a, b = name(d1), name(d2)
            pre = 'static void Z_@(void *p, u64 n){ u8 *c = p; for(u64 i = 0; i < n; i++) c[i] = 0; } static void H_@(void *p, u64 n){ u8 *c = p; u64 h = 5; for(u64 i = 0; i < n; i++) h = h * 31 + c[i]; O(h); } static int h_@(int a){ return a + 5; } static int g_@(int a, int b){ return a * b; } static float k_@(float a){ return a + 0.25f; }\n'
            yield (('near', i, j), pre + a + '\n', f'{obs(d1, u1)} {{ \n{b}\n {obs(d2, u2)} {{ {obs(d2, u2)} }} }} {obs(d1, u1)}', 48)
            if i != j:
                yield (('near2', i, j), pre, f'{{ \n{a}\n {obs(d1, u1)} {{ \n{b}\n {obs(d2, u2)} }} {obs(d1, u1)} }}', 48)


def misc_items():
    L = [
        ('declarator-start', '', 'int x = 5; { long long y = x; int x = sizeof(x); O(x); O(y); } { short x = 3, y = x; O(y); } O(x);'),
        ('declarator-start-array', 'enum { x_@ = 6 };', 'char x_@[x_@]; O(sizeof x_@);'),
        ('declarator-self-sizeof', '', 'char x[3]; { short x[sizeof x]; O(sizeof x); } O(sizeof x);'),
        ('declarator-self-address', '', 'void *p = &p; O(p == &p); struct s { struct s *n; int v; } l = { &l, 3 }; O(l.n->n->v);'),
        ('typedef-in-own-declarator', 'typedef short T_@;', 'T_@ T_@ = 4; O(sizeof T_@); O(T_@ * 2);'),
        ('typedef-then-var-list', 'typedef short T_@;', 'T_@ a = 1, T_@ = 2, b = 3; O(sizeof a); O(T_@); O(sizeof b); O(a + b);'),
        ('typedef-param-name', 'typedef short T_@; static int f_@(T_@ T_@){ return sizeof T_@ + T_@; } static int g_@(int T_@, int (*q)(int)){ return q(T_@); } static int h_@(int x){ return x * 3; }', 'O(f_@(40)); O(g_@(5, h_@));'),
        ('typedef-unnamed-param', 'typedef short T_@; int f_@(T_@); int f_@(T_@ x){ return x + 1; } int g_@(T_@ *, T_@ [3]); int g_@(T_@ *a, T_@ b[3]){ return a - b; }', 'T_@ z[4]; O(f_@(2)); O(g_@(z + 2, z));'),
        ('typedef-member-name', 'typedef short T_@; struct S_@ { T_@ T_@; int b; };', 'struct S_@ s = {1, 2}; O(s.T_@); s.T_@ = -1; O(s.T_@); O(sizeof s.T_@); O(sizeof(T_@));'),
        ('typedef-member-struct', 'typedef struct T_@ { struct T_@ *T_@; int v; } T_@;', 'T_@ a = { &a, 9 }; struct T_@ b = { &a, 10 }; O(b.T_@->T_@->v); { T_@ *T_@ = &b; O(T_@->v); }'),
        ('typedef-label', 'typedef short T_@;', 'int i = 0; T_@: i++; if(i < 3) goto T_@; O(i); O(sizeof(T_@));'),
        ('typedef-tag', 'typedef short T_@; struct T_@ { char c[7]; };', 'O(sizeof(T_@)); O(sizeof(struct T_@)); { struct T_@ T_@; O(sizeof T_@); O(sizeof(struct T_@)); }'),
        ('enum-tag-var', 'enum E_@ { A_@ = 3 };', 'enum E_@ E_@ = A_@; O(E_@); { enum E_@ { A_@ = 8 }; enum E_@ z = A_@; O(z); } O(A_@);'),
        ('enum-scope-start', 'enum { a_@ = 5 };', 'enum { a_@ = a_@ + 1, b = a_@ + 10, c = a_@ }; O(a_@); O(b); O(c);'),
        ('enum-in-sizeof', '', 'int n = sizeof(enum { q_@ = 4 }); O(n); O(q_@); { O(sizeof(char[q_@ + 1])); }'),
        ('enum-in-struct', 'struct S_@ { enum { in_@ = 12 } e; struct { enum { in2_@ = 13 } f; } g; };', 'O(in_@); O(in2_@); struct S_@ s; s.e = in2_@; O(s.e);'),
        ('enum-in-param', 'static int f_@(enum P_@ { pa_@ = 4 } x){ return x + pa_@; }', 'O(f_@(3));'),
        ('enum-in-cast', '', 'int v = (enum { cc_@ = 21 })20; O(v); O(cc_@);'),
        ('enum-in-for', '', 'for(enum { s_@ = 2, e_@ = 5 } i = s_@; i < e_@; i++) O(i);'),
        ('prototype-scope', 'enum { n_@ = 3 }; static int f_@(int n_@, char (*a)[4]){ return n_@ + sizeof *a; } int g_@(int x, int y); int g_@(int y, int x){ return y * 10 + x; }', 'O(f_@(50, 0)); O(n_@); O(g_@(1, 2)); { int g_@(int n_@, int); O(n_@); int (*p)(int p) = 0; O(p == 0); }'),
        ('param-vs-body', 'static int f_@(int a, int b){ int r = a; { int a = 100; r += a; { int b = 1000; r += a + b; } r += b; } return r + a; }', 'O(f_@(1, 2));'),
        ('for-scope', '', 'int i = 77; for(int i = 0; i < 2; i++){ O(i); int i = 5; O(i++); O(i); } O(i); for(i = 0; i < 1; i++); O(i); for(short i = 9; i < 10; i++) O(sizeof i); O(sizeof i);'),
        ('for-init-use-outer', '', 'int i = 4; for(int j = i, i = 10; i < 12; i++){ O(i); O(j); } O(i);'),
        ('for-nested', '', 'for(int i = 0; i < 2; i++) for(int j = i; j < 2; j++) for(int i = 0; i < 2; i++){ O(i); O(j); }'),
        ('for-body-noblock', '', 'int s = 0; for(int i = 0, s = 3; i < s; i++) O(s); O(s);'),
        ('if-else-scope', '', 'int x = 1; if(x){ int x = 2; O(x); } else { int x = 3; O(x); } O(x); while(x){ int x = 9; O(x); break; } O(x); do { int x = 0; O(x); break; } while(x); O(x);'),
        ('switch-scope', '', 'int x = 1; switch(x){ int y; case 0: y = 1; case 1: y = 6; int x; x = 44; O(x); O(y); break; default: ; } O(x);'),
        ('label-namespaces', 'int l_@ = 5;', 'struct l_@ { int l_@; } s = { 6 }; O(l_@); goto l_@; l_@: O(s.l_@); O(l_@);'),
        ('labels-per-function', 'static int f_@(int x){ if(x) goto a; return 1; a: return 2; } static int g_@(int x){ if(x) goto a; return 3; a: return 4; }', 'O(f_@(0)); O(f_@(1)); O(g_@(0)); O(g_@(1)); goto a; O(99); a: O(5);'),
        ('label-nested', '', 'int n = 0; { a: n++; { int a = n; O(a); if(n < 3) goto a; } } O(n);'),
        ('member-namespaces', 'struct A_@ { int x; char y; }; struct B_@ { char y; int x; };', 'struct A_@ a = {1, 2}; struct B_@ b = {3, 4}; int x = 5; char y = 6; O(a.x); O(a.y); O(b.x); O(b.y); O(x); O(y); struct A_@ *x2 = &a; O(x2->x);'),
        ('member-shadows-typedef', 'typedef struct { int u8; s16 s16; } M_@;', 'M_@ m = { .s16 = -1, .u8 = 300 }; O(m.u8); O(m.s16); u8 z = m.u8; O(z);'),
        ('anonymous-members', 'struct S_@ { int a; union { int b; struct { char c, d; }; }; int e; };', 'struct S_@ s = { 1, { 0x0203 }, 4 }; int b = 9; O(s.a); O(s.b); O(s.c); O(s.d); O(s.e); O(b);'),
        ('static-locals-distinct', 'static int f_@(void){ static int x; { static int x = 10; x++; } return ++x; } static int g_@(void){ static int x = 100; { static int x = 1000; x += 5; { static int x = 7; return x++; } } }', 'O(f_@()); O(f_@()); O(g_@()); O(g_@()); O(f_@());'),
        ('static-local-two-blocks', 'static int f_@(int w){ if(w){ static int x = 1; return x++; } else { static int x = 50; return x++; } }', 'O(f_@(0)); O(f_@(1)); O(f_@(0)); O(f_@(1)); O(f_@(1));'),
        ('static-local-address', 'int v_@ = 1; static int *f_@(void){ static int a = 5; static int *p = &a; static int **q = &p; a++; return *q; } ', 'O(*f_@()); O(*f_@()); O(f_@() == f_@());'),
        ('static-local-shadow-init', 'static int x_@ = 3; static int f_@(void){ static int *p = &x_@; static int x_@ = 8; static int *q = &x_@; return *p * 10 + *q; }', 'O(f_@()); x_@ = 4; O(f_@());'),
        ('block-extern-sees-global', 'static int x_@ = 3; static int f_@(void){ extern int x_@; return x_@; } int y_@ = 6;', 'O(f_@()); x_@ = 5; O(f_@()); { int y_@ = 1; { extern int y_@; O(y_@); y_@ = 12; } O(y_@); } O(y_@); { extern int y_@; O(y_@); { extern int y_@; O(y_@); } }'),
        ('block-extern-before-file-decl', 'static int f_@(void){ extern int z_@; return z_@; } int z_@ = 31;', 'O(f_@());'),
        ('block-func-decl', 'int f_@(int); static int g_@(void){ int f_@(int); return f_@(4); } int f_@(int a){ return a * 2; }', 'O(g_@()); { int f_@ = 3; { int f_@(int); O(f_@(10)); } O(f_@); }'),
        ('block-func-shadow-call', 'static int q_@(void){ return 1; } static int r_@(void){ return 2; }', 'O(q_@()); { int (*q_@)(void) = r_@; O(q_@()); { int r_@ = 5; O(q_@() + r_@); } } O(q_@());'),
        ('func-param-shadows-func', 'static int q_@(void){ return 1; } static int f_@(int q_@){ return q_@ + 1; } static int g_@(int (*q_@)(void)){ return q_@(); } static int h_@(void){ return 9; }', 'O(f_@(5)); O(g_@(h_@)); O(q_@());'),
        ('recursive-shadow', 'static int f_@(int n){ if(n == 0) return 1; { int f = f_@(n - 1); return f * n; } }', 'O(f_@(6));'),
        ('tentative', 'int a_@; int a_@; static int b_@; static int b_@; extern int a_@; int c_@[]; int c_@[4]; int d_@; int d_@ = 5; extern int e_@; int e_@ = 6; int e_@;', 'O(a_@); O(b_@); O(sizeof c_@); O(c_@[3]); O(d_@); O(e_@); a_@ = 3; b_@ = 4; O(a_@); O(b_@);'),
        ('static-then-extern', 'static int a_@ = 4; extern int a_@; static int f_@(void); extern int f_@(void); static int f_@(void){ return a_@; } static int g_@(void); int g_@(void){ return 77; }', 'O(f_@()); a_@ = 6; O(f_@()); O(g_@());'),
        ('typedef-redefinition', 'typedef int T_@; typedef int T_@; typedef T_@ T_@; typedef struct S_@ S_@; typedef struct S_@ S_@; struct S_@ { T_@ x; };', 'S_@ s = { 4 }; O(s.x); O(sizeof(T_@));'),
        ('incomplete-array-extern', 'extern int a_@[]; static int f_@(void){ return a_@[2]; } int a_@[3] = {1, 2, 3};', 'O(f_@()); O(sizeof a_@);'),
        ('block-decl-list', 'int f_@(void); static int g_@(void){ int f_@(void), x = 3; x++; return x + f_@(); } int f_@(void){ return 10; } int e_@ = 5; static int h_@(void){ int e_@ = 9, y; { extern int e_@, e_@; y = e_@; } return y * 10 + e_@; }', 'O(g_@()); O(g_@()); O(h_@());'),
        ('tag-aligned-shadow', 'struct S_@ { int a; }; struct P_@ { int a; short b; };', 'O(sizeof(struct S_@)); { struct __declspec(align(16)) S_@ { int a; }; O(sizeof(struct S_@)); O(_Alignof(struct S_@)); } O(sizeof(struct S_@));\n#pragma pack(push, 2)\n{ struct P_@ { int a; short b; }; O(sizeof(struct P_@)); }\n#pragma pack(pop)\nO(sizeof(struct P_@));'),
        ('tag-fwd-deeper-use', 'struct D_@ { char c[9]; };', '{ struct D_@; struct D_@ *p; { struct D_@ *q; p = q = 0; } struct D_@ { int a, b, c; }; { struct D_@ *r = p; O(r + 1); O(sizeof *p); O(sizeof *r); } } O(sizeof(struct D_@));'),
        ('tag-union-pointer-shadow', 'struct V_@ { char c[9]; };', '{ union V_@; union V_@ *p = 0; union V_@ { union V_@ *p; char d[20]; }; O(sizeof *p); O(sizeof *p->p); } { typedef struct V_@ V_@; V_@ *p = 0; O(sizeof *p); { struct V_@ { V_@ *up; struct V_@ *self; char z[40]; }; struct V_@ v; O(sizeof *v.up); O(sizeof *v.self); } }'),
        ('tag-pointer-before-def', 'struct Q_@; static struct Q_@ *g_@; struct Q_@ { int v; }; static struct Q_@ o_@ = { 6 };', 'g_@ = &o_@; O(g_@->v);'),
        ('tag-in-prototype', 'struct P_@; int f_@(struct P_@ *p); struct P_@ { int v; }; int f_@(struct P_@ *p){ return p->v; }', 'struct P_@ p = { 44 }; O(f_@(&p));'),
        ('tag-recursive-shadow', 'struct N_@ { struct N_@ *next; int v; };', 'struct N_@ o = { 0, 1 }; { struct N_@ { struct N_@ *next; char v; }; struct N_@ i = { &i, 2 }; O(i.next->v); O(sizeof i.next->v); } O(o.v); O(sizeof o.v);'),
        ('tag-kind-shadow', 'struct K_@ { int a; };', '{ union K_@ { int a; char b[9]; }; union K_@ u; O(sizeof u); { enum K_@ { k1_@ = 3 }; enum K_@ e = k1_@; O(e); } O(sizeof(union K_@)); } O(sizeof(struct K_@));'),
        ('tag-mutual-local', '', 'struct B_@; struct A_@ { struct B_@ *b; int v; }; struct B_@ { struct A_@ *a; char v; }; struct A_@ a; struct B_@ b = { &a, 2 }; a.b = &b; a.v = 1; O(a.b->v); O(b.a->v); O(sizeof a.b->v);'),
        ('tag-mutual-shadow', 'struct B_@ { long long q; };', 'struct B_@; struct A_@ { struct B_@ *b; }; struct B_@ { char v[3]; }; struct A_@ a; O(sizeof *a.b); O(sizeof(struct B_@));'),
        ('tag-struct-member-scope', 'struct O_@ { struct I_@ { int a; } i; enum { z_@ = 4 } e; };', 'struct I_@ i = { 5 }; O(i.a); O(z_@); struct O_@ o = { { 6 }, z_@ }; i = o.i; O(i.a);'),
        ('mul-or-decl', 'typedef int T_@; int x_@ = 6;', 'T_@ * x_@; O(sizeof x_@); { int T_@ = 7, x_@ = 3; O(T_@ * x_@); T_@ * x_@; O((T_@) * x_@); O((T_@) - x_@); O((T_@) + 1); }'),
        ('cast-or-paren', 'typedef short T_@; int v_@ = 70000;', 'O((T_@)v_@); O((T_@)-v_@); O((T_@)+v_@); int *p = &v_@; O((T_@)*p); O((u64)(T_@ *)&v_@ == (u64)&v_@); { int T_@ = 5; O((T_@)-v_@); O((T_@)+v_@); O((T_@)*v_@); O((T_@)&v_@); }'),
        ('call-or-cast', 'typedef short T_@; static int f_@(int x){ return x + 1; }', 'O((T_@)(70000)); { int (*T_@)(int) = f_@; O((T_@)(70000)); O(sizeof(T_@)); O(sizeof(T_@)(1)); }'),
        ('sizeof-type-or-expr', 'typedef char T_@[5];', 'O(sizeof(T_@)); O(sizeof(T_@ *)); { short T_@ = 1; O(sizeof(T_@)); O(sizeof T_@); O(sizeof(T_@) + 1); O(sizeof(T_@ * 2)); }'),
        ('decl-paren', 'typedef int T_@;', 'T_@ (a) = 4; T_@ (*b) = &a; T_@ ((c))[2] = {1, 2}; O(a); O(*b); O(c[1]); { int (T_@) = 9; O(T_@); } { T_@ (T_@) = 10; O(T_@); }'),
        ('param-paren-typedef', 'typedef int T_@; static int f_@(int (T_@)){ return 5; } int g_@(T_@ (x)); int g_@(T_@ (x)){ return x; }', 'O(sizeof(&f_@)); int g_@(T_@ (x)); O(g_@(4));'),
        ('typedef-func-type', 'typedef int F_@(int); F_@ f_@; int f_@(int a){ return a + 2; } static F_@ *g_@ = f_@;', '{ F_@ *F_@ = f_@; O(F_@(1)); } O(g_@(2)); O(f_@(3));'),
        ('typedef-qualifier-only', 'typedef int T_@;', '{ const T_@ x = 3; O(x); } { unsigned T_@ = 5; O(T_@); } { const T_@ * p = 0; O(p == 0); } { static T_@ y = 4; O(y); }'),
        ('typedef-in-for', 'typedef short T_@;', 'for(T_@ i = 0; i < 2; i++) O(sizeof i); { int T_@ = 0; for(T_@ = 5; T_@ < 7; T_@++) O(T_@); }'),
        ('typedef-stmt-start', 'typedef short T_@;', '{ int T_@ = 1; T_@ = 2; O(T_@); T_@++; O(T_@); T_@ += 4, O(T_@); } { int T_@[2] = {1, 2}; T_@[1] = 7; O(T_@[1]); } { struct { int a; } T_@ = { 3 }; T_@.a = 8; O(T_@.a); }'),
        ('ternary-typedef-label', 'typedef short T_@;', '{ int T_@ = 3; O(1 ? T_@ : 5); switch(3){ case 3 ? 3 : 0: O(T_@); } }'),
        ('expr-shadow-in-init', '', 'int a = 1; int b[] = { a, a + 1, ({0;}, 0) ? a : 2 };'.replace('({0;}, 0) ? a : 2', 'a ? 7 : 2') + ' { int a = 5, b[] = { a, a * 2 }; O(b[1]); } O(b[2]); O(a);'),
        ('compound-literal-scope', '', 'int *p; { p = (int []){ 1, 2, 3 }; O(p[2]); { int *p = (int []){ 4 }; O(*p); } O(p[0]); }'),
        ('redeclare-in-sibling', '', '{ s8 x = -1; O(x); O(sizeof x); } { u16 x = 0xffff; O(x); O(sizeof x); } { s64 x = 1ll << 40; O(x); } { float x = 1.5; O(x * 2); }'),
        ('builtin-names-as-locals', '', 'int memcpy = 3; O(memcpy); { int printf = 4; O(printf); } int strlen = 5; O(strlen); int main = 6; O(main);'),
        ('keyword-like', 'int inline_@; int func_@; int auto_x_@ = 2; int _Bool_x_@ = 3; int int_@ = 4; int sizeof_@ = 5;', 'O(auto_x_@); O(_Bool_x_@); O(int_@); O(sizeof_@);'),
        ('func-name', 'static const char *f_@(void){ return __func__; } static int g_@(void){ const char *__func = "zz"; return __func__[0] == \'g\' && __func[0] == \'z\'; }', 'O(f_@()[0]); O(g_@());'),
        ('static-func-forward', 'static int a_@(int); static int b_@(int n){ return n ? a_@(n - 1) : 5; } static int a_@(int n){ return n ? b_@(n - 1) + 1 : 9; }', 'O(b_@(4)); O(b_@(5));'),
        ('extern-incomplete-struct', 'extern struct X_@ x_@; static struct X_@ *p_@ = &x_@; struct X_@ { int a, b; }; struct X_@ x_@ = { 3, 4 };', 'O(p_@->b); O(x_@.a);'),
        ('inline-kinds', 'static inline int a_@(void){ return 1; } inline static int b_@(void){ return 2; } extern inline int c_@(void){ return 3; } static __inline int d_@(void){ return 4; } __forceinline int e_@(void){ return 5; }', 'O(a_@()); O(b_@()); O(c_@()); O(d_@()); O(e_@());'),
    ]
    for k, d, b in L:
        yield ('misc/' + k, d, b)


def collide(n):
    """identifiers whose DJB2-like hashes collide: replace a letter pair (x, y) by (x+1, y-33)"""
    pairs = [('E', 'z', 'F', 'Y'), ]
    out = ['']
    for _ in range(n):
        out = [o + p for o in out for p in ('Ez', 'FY')]
    return out


def collision_items(th):
    names = collide(4)    # 16 identifiers with one hash value
    for k in range(2, 17):
        ns = names[:k]
        d = ''.join(f'int {n}_@ = {i + 1}; ' for i, n in enumerate(ns))
        yield (f'collide/file/{k}', d, ''.join(f'O({n}_@); {n}_@ += 100; ' for n in ns[::-1]) + ''.join(f'O({n}_@); ' for n in ns), 2 * k)
        yield (f'collide/static/{k}', ''.join(f'static int {n}_@ = {i + 1}; ' for i, n in enumerate(ns)), ''.join(f'O({n}_@); {n}_@ += 100; ' for n in ns[::-1]) + ''.join(f'O({n}_@); ' for n in ns), 2 * k)
        yield (f'collide/local/{k}', '', ''.join(f'int {n} = {i + 1}; ' for i, n in enumerate(ns)) + ''.join(f'O({n}); ' for n in ns) + '{ ' + ''.join(f'short {n} = {i + 50}; ' for i, n in enumerate(ns[::2])) + ''.join(f'O({n}); O(sizeof {n}); ' for n in ns) + '} ' + ''.join(f'O({n}); ' for n in ns), 5 * k)
        yield (f'collide/func/{k}', ''.join(f'static int {n}_@(void){{ return {i}; }} ' for i, n in enumerate(ns)), ''.join(f'O({n}_@()); ' for n in ns), k)
        yield (f'collide/enum/{k}', 'enum { ' + ', '.join(f'{n}_@ = {i * 3}' for i, n in enumerate(ns)) + ' };', ''.join(f'O({n}_@); ' for n in ns), k)
        yield (f'collide/tag/{k}', ''.join(f'struct {n}_@ {{ char a[{i + 1}]; }}; ' for i, n in enumerate(ns)), ''.join(f'O(sizeof(struct {n}_@)); ' for n in ns) + '{ ' + ''.join(f'struct {n}_@ {{ char a[{i + 40}]; }}; ' for i, n in enumerate(ns[1::2])) + ''.join(f'O(sizeof(struct {n}_@)); ' for n in ns) + '}', 2 * k)
        yield (f'collide/member/{k}', 'struct S_@ { ' + ''.join(f'int {n}; ' for n in ns) + '};', 'struct S_@ s = { ' + ', '.join(f'.{n} = {i}' for i, n in enumerate(ns)) + ' }; ' + ''.join(f'O(s.{n}); ' for n in ns), k)
        yield (f'collide/macro/{k}', '\n'.join(f'#define {n}_@ {i + 7}' for i, n in enumerate(ns)) + '\n', ''.join(f'O({n}_@); ' for n in ns) + '\n' + '\n'.join(f'#undef {n}_@' for n in ns[::2]) + '\n' + ''.join(f'int {n}_@ = {i}; ' for i, n in enumerate(ns) if i % 2 == 0) + ''.join(f'O({n}_@); ' for n in ns), 2 * k)
        yield (f'collide/label/{k}', '', 'int i = 0; goto L_; ' + ' '.join(f'{n}: O({j}); i++; goto L_;' for j, n in enumerate(ns)) + ' L_: switch(i){ ' + ' '.join(f'case {j}: goto {n};' for j, n in enumerate(ns)) + ' }', k)
        yield (f'collide/typedef/{k}', ''.join(f'typedef char {n}_@[{i + 1}]; ' for i, n in enumerate(ns)), ''.join(f'O(sizeof({n}_@)); ' for n in ns) + '{ ' + ''.join(f'int {n}_@ = {i}; ' for i, n in enumerate(ns[::3])) + ''.join(f'O(sizeof({n}_@)); ' for n in ns) + '}', 2 * k)
    # many locals: the scope table grows repeatedly while shadowed outer names stay visible
    for n in (1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 130):
        b = ''.join(f'int v{i} = {i}; ' for i in range(n)) + '{ ' + ''.join(f'char v{i} = {i + 1}; ' for i in range(0, n, 2)) + 'u64 s = 0; ' + ''.join(f's = s * 31 + v{i} + sizeof v{i}; ' for i in range(n)) + 'O(s); } u64 t = 0; ' + ''.join(f't = t * 31 + v{i} + sizeof v{i}; ' for i in range(n)) + 'O(t); '
        yield (f'grow/{n}', '', b, 2)


# ---------------------------------------------------------------- several translation units
# one external or internal entity per unit; every unit reports its view and modifies it
KV = ['none', 'def', 'tent', 'extern', 'sdef', 'stent', 'bextern', 'extdef', 'sextern', 'slocal', 'tentext', 'slistext']
KF = ['none', 'fdef', 'fdecl', 'sfdef', 'bfdecl', 'sffwd', 'inl', 'edef', 'eboth', 'sfext', 'slistdecl', 'blistdecl']


# array declarations, some of unknown size: text, whether it defines, whether the type is complete afterwards
KA = {
    'aunk': ('extern int @[];', 0, 0), 'aknown': ('extern int @[5];', 0, 1), 'adef': ('int @[5] = {1, 2, 3, 4, 5};', 1, 1), 'adefu': ('int @[] = {1, 2, 3, 4, 5};', 1, 1), 'atent': ('int @[5];', 1, 1),
    'atentu': ('int @[]; int @[5];', 1, 1), 'atentr': ('int @[5]; int @[];', 1, 1), 'aunkknown': ('extern int @[]; extern int @[5];', 0, 1), 'aknownunk': ('extern int @[5]; extern int @[];', 0, 1),
    'aunkdef': ('extern int @[]; int @[] = {1, 2, 3, 4, 5};', 1, 1), 'adefunk': ('int @[] = {1, 2, 3, 4, 5}; extern int @[];', 1, 1), 'ablock': ('', 0, 0), 'aunkuse': ('extern int @[]; static int z@~(void){ return @[1]; } extern int @[5];', 0, 1),
    'a3': ('extern int @[]; extern int @[5]; extern int @[];', 0, 1), 'anone': ('', 0, 0),
}


def redecl_items():
    D = ['extern T a_@[];', 'extern T a_@[5];', 'T a_@[];', 'T a_@[5];', 'T a_@[] = {V};', 'T a_@[5] = {V};', 'extern T a_@[]; U']
    for ti, (t, v) in enumerate([('int', '1, 2, 3, 4, 5'), ('short', '[4] = 9'), ('char', '"abcd"'), ('P', '{1, 2}, {3}, [4] = {5, 6}')]):
        for k in (1, 2, 3):
            for ds in itertools.product(range(len(D)), repeat=k):
                defs = sum(x in (4, 5) for x in ds)
                tent = any(x in (2, 3) for x in ds)
                comp = any(x in (1, 3, 4, 5) for x in ds)
                if defs > 1 or not (defs or tent) or not comp:
                    continue
                es = {'int': 4, 'short': 2, 'char': 1, 'P': 8}[t]
                vals = {'int': [1, 2, 3, 4, 5], 'short': [0, 0, 0, 0, 9], 'char': [97, 98, 99, 100, 0], 'P': [2, 0, 0, 0, 6]}[t] if defs else [0] * 5
                exp = [5 * es, 5, *vals, *vals[:4], 77, 5 * es] + [4 * es] * ds.count(6)
                src = '' if t != 'P' else 'typedef struct { int x, y; } P_@;\n'
                for n, x in enumerate(ds):
                    src += D[x].replace('T', t if t != 'P' else 'P_@').replace('V', v).replace('U', f'static void *u{n}_@(void){{ return a_@ + 4; }}') + '\n'
                acc = 'a_@[i]' if t != 'P' else 'a_@[i].y'
                yield (('redecl', ti) + ds, src, f'O(sizeof a_@); O(sizeof a_@ / sizeof *a_@); for(int i = 0; i < 5; i++) O({acc}); {acc.replace("i", "4", 1)} = 77; for(int i = 0; i < 5; i++) O({acc}); O((char *)(&a_@ + 1) - (char *)a_@);' + ''.join(f' O((char *)u{n}_@() - (char *)a_@);' for n, x in enumerate(ds) if x == 6), 24, exp)


def var_unit(k, u, n):
    if k in KA:
        d, _, comp = KA[k]
        loc = f'extern int {n}[]; ' if k == 'ablock' else ''
        get = f'{n} + ' + ('sizeof(' + n + ') / 4 - 2' if comp else '3')
        return d.replace('@', n).replace('~', str(u)) + f'\nint *{n}g{u}(void){{ {loc}return {get if k != "anone" else 0}; }}\n'
    d = {'none': '', 'def': f'int {n} = {u + 1}00;', 'tent': f'int {n};', 'extern': f'extern int {n};', 'sdef': f'static int {n} = {u + 1}01;', 'stent': f'static int {n};', 'bextern': '',
         'extdef': f'extern int {n}; int {n} = {u + 1}02; extern int {n};', 'sextern': f'static int {n} = {u + 1}03; extern int {n};', 'slocal': '', 'tentext': f'int {n}; extern int {n};', 'slistext': f'static int z{n}{u}; extern int z{n}{u}, {n}, z{n}{u};'}[k]
    loc = {'bextern': f'extern int {n}; ', 'slocal': f'static int {n} = {u + 1}04; '}.get(k, '')
    get = f'int *{n}g{u}(void){{ {loc}return &{n}; }}' if k != 'none' else f'int *{n}g{u}(void){{ return 0; }}'
    return d + '\n' + get + '\n'


def fun_unit(k, u, n):
    d = {'none': '', 'fdef': f'int {n}(void){{ static int c = {u + 1}00; return c++; }}', 'fdecl': f'int {n}(void);', 'sfdef': f'static int {n}(void){{ static int c = {u + 1}01; return c++; }}', 'bfdecl': '',
         'sffwd': f'static int {n}(void);', 'inl': f'static inline int {n}(void){{ return {u + 1}02; }}', 'edef': f'extern int {n}(void){{ return {u + 1}03; }}', 'eboth': f'extern int {n}(void); int {n}(void){{ return {u + 1}05; }}',
         'sfext': f'static int {n}(void); extern int {n}(void);', 'slistdecl': f'static int z{n}{u}(void); int z{n}{u}(void), {n}(void); static int z{n}{u}(void){{ return 3; }}', 'blistdecl': ''}[k]
    post = {'sffwd': f'static int {n}(void){{ return {u + 1}06; }}', 'sfext': f'int {n}(void){{ return {u + 1}07; }}'}.get(k, '')
    loc = {'bfdecl': f'int {n}(void); ', 'blistdecl': f'int {n}(void), loc = 3; '}.get(k, '')
    get = f'int (*{n}g{u}(void))(void){{ {loc}return {n}; }} int {n}c{u}(void){{ {loc}return {n}(); }}' if k != 'none' else f'int (*{n}g{u}(void))(void){{ return 0; }} int {n}c{u}(void){{ return 0; }}'
    return d + '\n' + get + '\n' + post + '\n'


def tu_items(th):
    EXTDEF_V, EXTREF_V = {'def', 'tent', 'extdef', 'tentext'}, {'extern', 'bextern', 'slistext'}
    EXTDEF_F, EXTREF_F = {'fdef', 'edef', 'eboth'}, {'fdecl', 'bfdecl', 'slistdecl', 'blistdecl'}
    for kinds in itertools.product(KV, repeat=3 if th else 2):
        ks = list(kinds) + ([] if th else ['none'])
        for ks in ([ks] if th else [ks, [ks[0], ks[1], 'extern'], [ks[0], ks[1], 'sdef'], [ks[0], ks[1], 'slocal']]):
            nd = sum(k in EXTDEF_V for k in ks)
            if nd > 1 or (nd == 0 and any(k in EXTREF_V for k in ks)):
                continue
            if all(k == 'none' for k in ks):
                continue
            yield ('v', tuple(ks))
    for kinds in itertools.product(KF, repeat=3 if th else 2):
        for ks in ([list(kinds)] if th else [list(kinds) + ['none'], list(kinds) + ['fdecl'], list(kinds) + ['sfdef']]):
            nd = sum(k in EXTDEF_F for k in ks)
            if nd > 1 or (nd == 0 and any(k in EXTREF_F for k in ks)):
                continue
            if all(k == 'none' for k in ks):
                continue
            yield ('f', tuple(ks))
    for ks in itertools.product(KA, repeat=3 if th else 2):
        for ks in ([ks] if th else [(*ks, 'anone'), (*ks, 'aunk'), ('aunk', *ks), ('aknown', *ks)]):
            if sum(KA[k][1] for k in ks) == 1:
                yield ('a', ks)
    # a variable in one unit and a function, typedef, enumerator or macro of the same name (internal or no linkage) in another
    for a in ('sdef', 'stent', 'slocal'):
        for b in ('sfdef', 'inl', 'sffwd'):
            yield ('m', (a, b, 'none'))
            yield ('m', (b, a, a))
            yield ('m', (a, b, b))
    for a in ('def', 'tent', 'extdef'):
        for b in ('sfdef', 'inl', 'sffwd'):
            yield ('m', (a, b, 'extern'))
            yield ('m', ('extern', b, a))
            yield ('m', (b, 'bextern', a))
    for a in ('fdef', 'edef'):
        for b in ('sdef', 'stent', 'slocal'):
            yield ('m', (a, b, 'fdecl'))
            yield ('m', ('fdecl', b, a))
            yield ('m', (b, 'bfdecl', a))


def tu_run(c, items, orders):
    files = ['', '', '']
    drv = HEAD + 'extern int abs_;\n'
    body = ''
    N = 24
    keys = []
    for i, (fam, ks) in enumerate(items):
        n = f'n{i}'
        calls = ''
        vs = [(k in KV and k != 'none') or (k in KA and k != 'anone') for k in ks]
        fs = [(k in KF and k != 'none') for k in ks]
        for u, k in enumerate(ks):
            files[u] += (var_unit(k, u, n) if vs[u] else fun_unit(k, u, n) if fs[u] else '')
            if vs[u]:
                drv += f'int *{n}g{u}(void);\n'
            elif fs[u]:
                drv += f'int (*{n}g{u}(void))(void); int {n}c{u}(void);\n'
        live = [u for u in range(3) if vs[u] or fs[u]]
        for u in live:
            calls += f'O(*{n}g{u}()); ' if vs[u] else f'O({n}g{u}()()); O({n}c{u}()); '
        for u in live:
            if vs[u]:
                calls += f'*{n}g{u}() += {u + 5}; '
                calls += ''.join(f'O(*{n}g{w}()); ' for w in live if vs[w])
        for u in live:
            for w in live:
                if u < w:
                    calls += f'O((u64){n}g{u}() == (u64){n}g{w}()); '
        keys.append('tu/' + fam + '/' + '-'.join(ks))
        drv += f'static void t{i}(void){{ {calls} }}\n'
        body += f'o_ = buf + {i * N}; t{i}(); if(o_ - (buf + {i * N}) > {N}) *(volatile int *)0x51 = 1; '
    drv += f'__declspec(dllexport) u64 run(u64 *buf, u64 n){{ {body} return {len(items) * N * 8}; }}\n'
    src = {'a.c': files[0], 'b.c': files[1], 'c.c': files[2], 'd.c': drv}
    ref = c.ref.link([c.ref.obj(s) for s in src.values()])
    r = c.e.run_dll(ref, bufsize=len(items) * N * 8 + 64)
    if r.kind != 'exit':
        raise EngineError(f'reference crashed: {r}')
    exp = r.buf
    for order in orders:
        r = c.e.compile(src, ' '.join(order) + ' /dll /no_entry /no_stdlib /no_debug /quiet /out x.dll')
        dll = r.files.get('x.dll')
        if r.kind != 'exit' or r.code or not dll:
            if len(items) > 1:
                h = len(items) // 2
                tu_run(c, items[:h], [order])
                tu_run(c, items[h:], [order])
                continue
            c.count(1)
            c.violation(keys[0], f'valid program not compiled ({" ".join(order)}): {r}', src)
            continue
        r = c.e.run_dll(dll, bufsize=len(items) * N * 8 + 64)
        c.count(len(items))
        if r.kind != 'exit' and len(items) > 1:
            h = len(items) // 2
            tu_run(c, items[:h], [order])
            tu_run(c, items[h:], [order])
            continue
        for i, k in enumerate(keys):
            c.seen(k)
            if r.kind != 'exit' or r.buf[i * N * 8:(i + 1) * N * 8] != exp[i * N * 8:(i + 1) * N * 8]:
                c.violation(k, f'order {" ".join(order)}: got {r if r.kind != "exit" else struct.unpack("<%dQ" % N, r.buf[i * N * 8:(i + 1) * N * 8])} expected {struct.unpack("<%dQ" % N, exp[i * N * 8:(i + 1) * N * 8])}', src)


def count_obs(t):
    key, decl, body = t[:3]
    if len(t) > 3:
        return t
    return (key, decl, body, 64)


def body(c):
    d = Diff(c, ref_flags=('-std=c17', '-Wno-implicit-function-declaration'), batch=40)
    its = []
    for t in itertools.chain(shadow_items(True, c.thorough), tag_items(True), near_items(), misc_items(), collision_items(c.thorough)):
        k = t[0]
        n = t[3] if len(t) > 3 else 600 if k[0] == "wrap" else 150 if k[0] == "shadow" else 48
        its.append((k, t[1], t[2], n))
    its = uniq(its)
    c.cov['single_unit_programs'] = len(its)
    d.run(its)
    # clang gives a tentative 'T a[]; T a[5];' one element, so these have computed expectations
    rd = uniq(t[:4] for t in redecl_items())
    exp = {'/'.join(map(str, t[0])): t[4] for t in redecl_items()}
    for it in rd:
        it.expect = exp[it.key]
    c.cov['array redeclarations'] = len(rd)
    d.run(rd)
    tus = list(dict.fromkeys(tu_items(True)))
    c.cov['multi_unit_programs'] = len(tus)
    F = ['a.c', 'b.c', 'c.c']
    orders = [tuple(o) + ('d.c',) for o in itertools.permutations(F)] + [('d.c', 'c.c', 'b.c', 'a.c')] if c.thorough else [('a.c', 'b.c', 'c.c', 'd.c'), ('d.c', 'c.c', 'b.c', 'a.c'), ('b.c', 'd.c', 'a.c', 'c.c')]
    c.e.map(lambda i: tu_run(c, tus[i:i + 40], orders), range(0, len(tus), 40))
    c.sample({'key': its[100].key, 'decl': its[100].decl, 'body': its[100].body})
    c.sample({'translation units': [list(t[1]) for t in tus[:5]], 'orders': orders})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every legal combination of binding kinds for one identifier at file, parameter and three block levels (used before and after each declaration and after each scope ends), every tag-binding combination at file and three block levels, every combination of linkage kinds in three translation units x file orders, hash-colliding identifiers in every name space; each compared with clang-18. Non-trivial: some observation non-zero.'
    c.assumptions += ['clang-18 binds names as C prescribes']


if __name__ == '__main__':
    main('C12', 'exploration', body)
