from common import *
import itertools, re, subprocess, tempfile

PRE = '''
static u64 HX(u64 h, u64 v){ return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 31); }
static u64 DB(double d){ union { double d; u64 u; } x; x.d = d; return x.u; }
static u64 HB(void *p, u64 n){ u8 *b = p; u64 h = 1469598103934665603ull; for(u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static u64 dirty(void){ volatile u64 a[128]; for(s32 i = 0; i < 128; i++) a[i] = 0xCDCDCDCDCDCDCDCDull; return a[3]; }
static s32 ext_[8]; static s32 fn_(s32 x){ return x + 1; }
typedef struct { s32 a; s8 b; s64 c; } T2; typedef struct { s32 a; struct { s16 x, y; } p; s8 t[3]; } T3; typedef struct { s16 x, y; } XY; typedef XY T4[3]; typedef s16 T5[2][3];
typedef union { s8 a[3]; s32 b; XY c; } T6; typedef struct { s32 a : 3; u32 b : 5; s32 : 0; s64 c : 40; s64 d : 20; u8 e : 1; } T7; typedef struct { s32 a; union { s32 b; struct { s8 c, d; }; }; s32 e; } T8;
typedef s8 T9[6]; typedef struct { s8 n[4]; s32 v; } T10[2]; typedef struct { float f; double d; s8 c; } T12; typedef u16 T13[4]; typedef s32 T1[4];
typedef struct { s32 *p; s32 (*f)(s32); char *s; u64 n; } T11; typedef struct { XY a[2]; XY b; } T14; typedef struct { T6 u; s32 k; T6 w[2]; } T15; typedef struct { struct { s32 a, b; }; XY q; union { s64 w; double z; }; } T16;
typedef struct { s8 c; _Bool b; enum { EA, EB = 7 } e; unsigned long l; } T17; typedef u16 T18[2][3];
'''
# a braced initialiser or a string that overrides an object which is already initialised in part, or another union member (known findings)
OVER = [('T3', '{.p.x = 1, .p = {.y = 2}}'), ('T14', '{.a[1].x = 1, .a = {[1] = {.y = 2}}}'), ('T6', '{.b = 0x01020304, .c = {.y = 5}}'), ('T6', '{.b = -1, .a[1] = 5}'), ('T10', '{[0].n[3] = 7, [0].n = "ab"}')]
NUM, LST, STR = '#', ['#', '{#}', '{#,#}', '{}'], '"ab"'
# type: (leaves, designators, values, reduced values for the longest lists)
TY = {
    'T1': (['[0]', '[1]', '[2]', '[3]'], ['', '[0]=', '[1]=', '[3]=', '[1 ... 2]='][:4], ['#', '{#}'], ['#']),
    'T2': (['.a', '.b', '.c'], ['', '.a=', '.b=', '.c='], ['#', '{#}', '-#'], ['#']),
    'T3': (['.a', '.p.x', '.p.y', '.t[0]', '.t[1]', '.t[2]'], ['', '.a=', '.p=', '.p.x=', '.p.y=', '.t=', '.t[1]=', '.t[2]='], ['#', '{#}', '{#,#}', '{.y=#}', '{[1]=#}', '"ab"', '{}'], ['#', '{#}']),
    'T4': ([f'[{i}].{m}' for i in range(3) for m in 'xy'], ['', '[0]=', '[1]=', '[2]=', '[0].y=', '[1].x=', '[2].y='], ['#', '{#}', '{#,#}', '{.y=#}', '{.y=#,.x=#}', '{}'], ['#', '{#}']),
    'T5': ([f'[{i}][{j}]' for i in range(2) for j in range(3)], ['', '[0]=', '[1]=', '[0][1]=', '[1][0]=', '[1][2]='], ['#', '{#}', '{#,#}', '{[2]=#}', '{[1]=#,#}', '{}'], ['#', '{#}']),
    'T6': (['.c.x', '.a[2]'], ['', '.a=', '.b=', '.c=', '.a[1]=', '.c.y='], ['#', '{#}', '{#,#}', '"ab"', '{.y=#}'], ['#']),
    'T7': (['.a', '.b', '.c', '.d', '.e'], ['', '.a=', '.b=', '.c=', '.d=', '.e='], ['#', '{#}', '-#'], ['#']),
    'T8': (['.a', '.b', '.c', '.d', '.e'], ['', '.a=', '.b=', '.c=', '.d=', '.e='], ['#', '{#}', '{#,#}', '{.d=#}', '{{#,#}}', '{.c=#,#}'], ['#', '{#}']),
    'T9': ([f'[{i}]' for i in range(6)], ['', '[0]=', '[2]=', '[5]='], ['#', '"abc"', '"abcdef"', '{"ab"}', "'x'", '""'], ['#']),
    'T10': ([f'[{i}]{m}' for i in range(2) for m in ('.n[0]', '.n[1]', '.n[2]', '.n[3]', '.v')], ['', '[0]=', '[1]=', '[0].n=', '[1].n=', '[0].v=', '[1].v=', '[0].n[1]=', '[1].n[3]='], ['#', '{#}', '"ab"', '"abcd"', '{"x"}', '{"abc",#}', '{.v=#}', '{{#,#},#}'], ['#', '"ab"']),
    'T12': (['.f', '.d', '.c'], ['', '.f=', '.d=', '.c='], ['#', '#.5', '-#.25f', '{#}', '(s8)#', '1e#'], ['#']),
    'T13': ([f'[{i}]' for i in range(4)], ['', '[1]=', '[3]='], ['#', 'L"ab"', 'u"abc"', 'L"abcd"', '{u"x"}'], ['#']),
    'T11': (['.p', '.f', '.s', '.n'], ['', '.p=', '.f=', '.s=', '.n='], ['ext_', '&ext_[#]', 'ext_ + #', 'fn_', '&fn_', '"abc"', '0', '(void *)#', '{0}', '#', '&ext_[7] - #', '"abc" + 1'], ['0']),
    'T14': ([f'.{m}.{k}' for m in ('a[0]', 'a[1]', 'b') for k in 'xy'], ['', '.a=', '.b=', '.a[0]=', '.a[1]=', '.a[1].y=', '.b.y=', '.a[0].x='], ['#', '{#}', '{#,#}', '{{#},#}', '{[1]=#,#}', '{{#},{#}}', '{.y=#}'], ['#', '{#}']),
    'T15': (['.u.c.x', '.u.a[2]', '.k', '.w[0].c.x', '.w[0].a[2]', '.w[1].c.x', '.w[1].a[2]'], ['', '.u=', '.k=', '.w=', '.u.b=', '.u.c=', '.w[1]=', '.w[0].a=', '.w[1].c.y=', '.u.a[2]='], ['#', '{#}', '{#,#}', '{.c={#}}', '{.b=#}', '{{#},{#}}', '{[1]=#}'], ['#', '{#}']),
    'T16': (['.a', '.b', '.q.x', '.q.y', '.w'], ['', '.a=', '.b=', '.q=', '.q.y=', '.w=', '.z='], ['#', '{#}', '{#,#}', '{.y=#}', '{.b=#}'], ['#', '{#}']),
    'T17': (['.c', '.b', '.e', '.l'], ['', '.c=', '.b=', '.e=', '.l='], ['#', 'EB', '{#}', '#.75', '-#', "'\\377'", '!#', '# > 2'], ['#']),
    'T18': ([f'[{i}][{j}]' for i in range(2) for j in range(3)], ['', '[0]=', '[1]=', '[0][1]=', '[1][2]='], ['#', 'L"ab"', 'u"xyz"', '{#,#}', '{[2]=#}', '{u"q"}'], ['#']),
}
UNSIZED = {  # element type for T x[] : leaves of an element
    's32': ([''], ['', '[0]=', '[2]=', '[5]=', '[1]='], ['#', '{#}']), 'XY': (['.x', '.y'], ['', '[1]=', '[3].y=', '[0].x=', '[2]='], ['#', '{#}', '{#,#}', '{.y=#}']),
    's8': ([''], ['', '[3]=', '[1]='], ['#', '"abc"', '""', '{"hello"}', '"a" "bc"']), 'T5': (['[0][0]', '[0][2]', '[1][1]'], ['', '[1]=', '[0][1]='], ['#', '{#}', '{{#},#}']),
    'u16': ([''], ['', '[2]='], ['#', 'L"abc"', 'u""', '{u"xy"}']), 'T6': (['.c.x', '.a[2]'], ['', '[1]=', '[2].c='], ['#', '{#}', '{#,#}']),
}


def number(s, base=0):
    n = [base]

    def f(m):
        n[0] += 1
        return str(n[0])
    return re.sub('#', f, s)


def lists(des, vals, red, n2, n3):
    full = [d + v for d in des for v in vals]
    for k in range(0, 3):
        for t in itertools.product(full if k < n2 else [d + v for d in des for v in vals[:4]], repeat=k):
            yield '{' + ', '.join(t) + '}'
    r = [d + v for d in des for v in red]
    for k in range(3, n3 + 1):
        if k == 4 and len(r) > 9:
            r = [d + red[0] for d in des][:8]
        for t in itertools.product(r, repeat=k):
            yield '{' + ', '.join(t) + '}'


def switches(s):
    """T8: .b and .c/.d are initialised in one list"""
    e = re.split(r', (?![^{]*\}.)', s[1:-1])
    b = any(x.startswith('.b') for x in e) or any(x[0] != '.' and (e[i - 1][0] != '.' and i == 1 or e[i - 1].startswith('.a')) for i, x in enumerate(e) if i)
    return b and ('.c' in s or '.d' in s)


def shrinks(t, s):
    """a designator of an aggregate after one of a part of it (the standard does not say which parts keep their value), or another member of the same union"""
    d = re.findall(r'(?:^\{|, )((?:\.\w+|\[[\w. ]+\])+)=', s)
    if t == 'T15' and '.w[1].c.y' in d and (len(d) > 1 and any(x != '.w[1].c.y' and x.startswith('.w') for x in d) or not s.startswith('{.w[1].c')):
        return True
    return any(d[j] != d[i] and d[i].startswith(d[j]) for j in range(len(d)) for i in range(j))


def valid(pre, cands):
    """cands: (type, name-suffix, init). Keeps what clang accepts as valid C"""
    src = pre + '\n'
    base = src.count('\n')
    src += '\n'.join(f'static {t} x{i}{a} = {number(s)};' for i, (t, a, s) in enumerate(cands)) + '\n'
    with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as f:
        f.write(src)
    p = subprocess.run(['clang-18', '--target=x86_64-pc-windows-msvc', '-fms-extensions', '-fsyntax-only', '-ferror-limit=0', '-Wno-everything', '-Winitializer-overrides', '-Werror=excess-initializers', '-Werror=many-braces-around-scalar-init', '-Werror=incompatible-pointer-types',
                        '-Werror=int-conversion', '-Werror=incompatible-function-pointer-types', '-Werror=int-to-pointer-cast', '-fno-caret-diagnostics', f.name], stderr=subprocess.PIPE)
    os.unlink(f.name)
    bad = {int(m) - base - 1 for m in re.findall(r'\.c:(\d+):\d+: (?:fatal )?error', p.stderr.decode('latin1'))}
    # A braced initialiser that overrides part of an already initialised aggregate, or another member of an initialised union: see the known findings.
    over = {int(m) - base - 1 for m in re.findall(r'\.c:(\d+):\d+: warning: [^\n]*overrid', p.stderr.decode('latin1'))}
    return [c for i, c in enumerate(cands) if i not in bad and not shrinks(c[0], c[2]) and not (c[0] == 'T8' and switches(c[2])) and not re.search(r"\[\d\]=[^,]*, [Lu]?\"", c[2]) and not (i in over and ('{' in c[2][1:] or '"' in c[2] and not (c[2].count('"') == 2 and c[2].endswith('"}')) or c[0] in ('T6', 'T8', 'T15', 'T16')))]


def acc(t, leaf, v):
    if t == 'T12':
        return f'h = HX(h, DB({v}{leaf}));'
    if t == 'T11' and leaf == '.s':
        return f'h = HX(h, {v}.s && {v}.s > (char *)4096 ? HB({v}.s, 2) : (u64){v}.s);'
    if t == 'T11' and leaf == '.p':
        return f'h = HX(h, {v}.p > (s32 *)4096 ? {v}.p - ext_ : (u64){v}.p);'
    if t == 'T11' and leaf == '.f':
        return f'h = HX(h, {v}.f > (void *)4096 ? {v}.f(4) : (u64){v}.f);'
    return f'h = HX(h, {v}{leaf});'


def vary(s):
    """the same initialiser with values that are not constant"""
    return re.sub(r'(?<![\w\[".])(\d+)(?![\w\].])', r'(z_ + \1)', s) if '"' not in s and "'" not in s and 'e#' not in s else s


def items(th):
    pre = HEAD + PRE
    for t, (leaves, des, vals, red) in TY.items():
        c = valid(pre, [(t, '', s) for s in dict.fromkeys(lists(des, vals, red, 3 if th or len(des) * len(vals) < 45 else 2, 4 if th or len(des) * len(red) < 7 else 3))])
        by = ''.join(acc(t, l, 'v') for l in leaves)
        for ty, a, s in c:
            k = number(s)
            nc = vary(k) if t != 'T11' else k
            decl = f'static {t} g_@ = {k};' + f'static {t} const c_@ = {k};' + f'static u64 h_@({t} *p){{ u64 h = 7; {by.replace("v", "(*p)", 1) if 0 else "".join(acc(t, l, "(*p)") for l in leaves)} return h; }}'
            body = f's32 z_ = 0; static {t} s = {k}; dirty(); {t} l = {nc}; O(h_@(&g_@)); O(h_@((void *)&c_@)); O(h_@(&s)); O(h_@(&l)); O(HB(&g_@, sizeof(g_@)) == HB(&s, sizeof(s)));'
            n = 5
            if t not in ('T1', 'T4', 'T5', 'T9', 'T10', 'T13', 'T18'):
                body += f'dirty(); {t} m; m = ({t}){nc}; O(h_@(&m)); O(h_@(&({t}){nc}));'
                n += 2
            else:
                body += f'dirty(); O(h_@(&({t}){nc}));'
                n += 1
            yield (f'{t}/{s}', decl, body, n)
    for t, (leaves, des, vals) in UNSIZED.items():
        c = valid(pre, [(t, '[]', s) for s in dict.fromkeys(lists(des, vals, vals[:2], 3, 3)) if s != '{}'] + ([(t, '[]', v) for v in vals if v[0] in '"Lu'] + [(t, '[]', '("abc")')] if t in ('s8', 'u16') else []))
        for ty, a, s in c:
            k = number(s)
            nc = vary(k) if t != 'T11' else k
            decl = f'static {t} g_@[] = {k}; static u64 h_@({t} *p, u64 n){{ u64 h = n; for(u64 i = 0; i < n; i++){{ {"".join(acc(t, l, "p[i]") for l in leaves)} }} return h; }}'
            body = f's32 z_ = 0; static {t} s[] = {k}; dirty(); {t} l[] = {nc}; O(sizeof(g_@)); O(sizeof(s)); O(sizeof(l)); O(h_@(g_@, sizeof(g_@) / sizeof(*g_@))); O(h_@(s, sizeof(s) / sizeof(*s))); O(h_@(l, sizeof(l) / sizeof(*l)));'
            n = 6
            if s[0] == '{':
                body += f'dirty(); O(h_@(({t}[]){nc}, sizeof(({t}[]){nc}) / sizeof({t})));'
                n += 1
            yield (f'{t}[]/{s}', decl, body, n)
    # members initialised from expressions of aggregate type, and evaluation of every initialiser exactly once
    for t, e in (('XY', 'mk_()'), ('XY', 'q_'), ('XY', '*r_'), ('XY', '(XY){5, 6}'), ('XY', 'w_[1]'), ('XY', '(q_)'), ('XY', '(0, q_)'), ('XY', 's_.b'), ('XY', '(z_ ? q_ : *r_)')):
        for pat in ('{.b = @E}', '{.a = {@E}}', '{.a[1] = @E}', '{@E}', '{@E, @E}', '{{@E, @E}, @E}', '{1, 2, @E}', '{1, 2, 3, 4, @E}', '{{@E, {7}}, 5, 6}', '{.b = @E, .b.x = 9}', '{.a[0] = @E, 3, 4, @E}', '{.b = {(@E).x, 2}}'):
            s = pat.replace('@E', e)
            yield (f'agg/{e}/{pat}', 'static s32 n_@; static XY mk_@(void){ n_@++; XY r; r.x = 11; r.y = 12; return r; }' + f'static u64 h_@(T14 *p){{ u64 h = 7; {"".join(acc("T14", l, "(*p)") for l in TY["T14"][0])} return h; }}',
                   ('s32 z_ = 0; n_@ = 0; XY q_ = {21, 22}; XY *r_ = &q_; XY w_[2] = {{1, 2}, {31, 32}}; T14 s_ = {{{1, 2}, {3, 4}}, {41, 42}}; dirty(); T14 l = ' + s + '; O(h_@(&l)); O(n_@); T14 m = {0}; m = (T14)' + s + '; O(h_@(&m)); O(n_@);').replace('mk_()', 'mk_@()'), 4)
    # the object itself in its initialiser, side effects, scalars in braces, large and sparse arrays
    misc = [('s32 a = 3, b = a + 1, c[2] = {b, a}; O(a); O(b); O(c[0]); O(c[1]);', 4), ('s32 i = 0; s32 a[4] = {i++, i++, i++, i++}; O(a[0] + a[1] * 2 + a[2] * 4 + a[3] * 8 >= 0); O(i);', 2), ('s32 x = {5}; s8 y = {300 & 255}; double d = {2}; O(x); O(y); OD(d);', 3),
            ('void *p = &p; O(p == &p);', 1), ('struct l { struct l *n; s32 v; } a = {&a, 4}; O(a.n == &a); O(a.n->v);', 2), ('static struct l { struct l *n; s32 v; } a = {&a, 4}; O(a.n == &a); O(a.n->v);', 2),
            ('D static s32 *p_@ = (s32 []){1, 2, 3}; ==== O(p_@[0]); O(p_@[2]);', 2), ('D static s32 *p_@ = &(s32){9}; ==== O(*p_@);', 1), ('D static XY *p_@ = &(XY){.y = 4}; ==== O(p_@->x); O(p_@->y);', 2), ('static s8 *p[] = {"a", "bc", 0, "d"}; O(sizeof(p)); O(p[1][1]); O(p[2] == 0); O(p[3][0]);', 4),
            ('static s64 a[] = {(s64)&((T3 *)0)->t[1], sizeof(T3), (u64)-1 > 0, 1 ? 2 : 3}; O(a[0]); O(a[1]); O(a[2]); O(a[3]);', 4), ('static s32 *p = &ext_[3], *q = ext_ + 5, *t = 2 + ext_; O(p - ext_); O(q - ext_); O(t - ext_);', 3), ('static s32 *r = &*ext_; O(r - ext_);', 1), ('static s32 *s = &(ext_ + 1)[2]; O(s - ext_);', 1),
            ('static T3 t = {.p = {1, 2}}; static s16 *p = &t.p.y; static s8 *q = &t.t[2]; O(*p); O(q - (s8 *)&t);', 2), ('static s8 (*p)[4] = &"abc"; O((*p)[2]);', 1), ('static u64 a = (u64)(u8)300; static s32 b = -5 / 2, c = -5 % 3, d = 1 << 20; O(a); O(b); O(c); O(d);', 4),
            ('static double d = 3, e = 1 / 2, f = 1 / 2.0; static float g = 16777217; static s32 h = 3.99, i = -3.99; OD(d); OD(e); OD(f); OF(g); O(h); O(i);', 6)]
    for k, (b, n) in enumerate(misc):
        yield (f'misc/{k}', b[2:].split('====')[0] if b[:2] == 'D ' else '', b.split('====')[-1], n)
    for k, (t, i) in enumerate(OVER):
        yield (f'over/{k}', f'static {t} g_@ = {i};' + f'static u64 h_@({t} *p){{ u64 h = 7; {"".join(acc(t, l, "(*p)") for l in TY[t][0])} return h; }}', f'{t} l = {i}; O(h_@(&g_@)); O(h_@(&l));', 2)
    # addresses: the object, the offset in it, and the place of the pointer
    OFF = (0, 1, 2, 127, 128, 129, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 69999)
    for sec, q, ini in (('bss', 'static s8', ''), ('data', 'static s8', ' = {1}'), ('const', 'static const s8', ' = {1}'), ('extern', 's8', ''), ('externdata', 's8', ' = {2}')):
        for fn, form in (('add', 'A_@ + {n}'), ('radd', '{n} + A_@'), ('idx', '&A_@[{n}]'), ('sub', '&A_@[69999] - {m}'), ('cast', '(void *)&A_@[{n}]'), ('two', 'A_@ + {h} + {g}'), ('s32', '(s32 *)A_@ + {q}')):
            es = [form.format(n=n, m=69999 - n, h=n // 2, g=n - n // 2, q=n // 4) for n in OFF]
            want = 'A_@ + ' if fn != 's32' else '(s8 *)((s32 *)A_@) + '
            decl = f'{q} A_@[70000]{ini}; ' + ''.join(f'static const void *p{i}_@ = {e}; ' for i, e in enumerate(es)) + f'static struct {{ s8 x; const void *p[{len(es)}]; s8 y; }} t_@[2] = {{[1] = {{3, {{{", ".join(es)}}}, 4}}}};'
            yield (f'addr/{sec}/{fn}', decl, f'static const void *l[] = {{{", ".join(es)}}};' + ''.join(f'O((s8 *)p{i}_@ - (s8 *)A_@); O((s8 *)t_@[1].p[{i}] - (s8 *)A_@); O((s8 *)l[{i}] - (s8 *)A_@);' for i in range(len(es))) + 'O(t_@[1].x + t_@[1].y); O(t_@[0].p[3] == 0);', 3 * len(es) + 2)
    for sec, ini in (('bss', ''), ('data', ' = {1}')):
        for big in (1, 100, 128, 250, 256, 32760, 65536):
            ms = ['.x', '.b', '.in.c', '.in.d[1]', '.in.d[3]', '.e[2].s', '.e[4].t']
            decl = f'typedef struct {{ s8 x[{big}]; s32 b; struct {{ s16 c; s64 d[4]; }} in; struct {{ s8 s; s32 t; }} e[5]; }} A_@t; static A_@t A_@[3]{ini.replace("{1}", "{{{1}}}")}; '
            decl += ''.join(f'static void *p{i}_{j}_@ = &A_@[{i}]{m}, *q{i}_{j}_@ = &(&A_@[{i}])->{m[1:]}, *r{i}_{j}_@ = &(A_@ + {i}){m.replace(".", "->", 1)}, *s{i}_{j}_@ = &(*(A_@ + {i})){m}, *t{i}_{j}_@ = &(&A_@[2])[{i} - 2]{m}; ' for i in range(3) for j, m in enumerate(ms))
            yield (f'addr/member/{sec}/{big}', decl, ''.join(f'O((s8 *)p{i}_{j}_@ - (s8 *)A_@); O((s8 *)q{i}_{j}_@ - (s8 *)A_@); O((s8 *)r{i}_{j}_@ - (s8 *)A_@); O((s8 *)s{i}_{j}_@ - (s8 *)A_@); O((s8 *)t{i}_{j}_@ - (s8 *)A_@);' for i in range(3) for j in range(len(ms))), 105)
    for ln in (1, 2, 7, 8, 127, 128, 255, 256, 257, 600, 5000):
        txt = ''.join(chr(97 + (i * 7 + i // 26) % 26) for i in range(ln))
        for pre in ('', 'L', 'u'):
            ct = 's8' if not pre else 'u16'
            for fn, form in (('add', '{s} + {n}'), ('idx', '&{s}[{n}]'), ('radd', '{n} + {s}')):
                ns = sorted({x for x in (0, 1, 2, 6, 7, 8, 126, 127, 128, 254, 255, 256, 257, 599, ln - 1, ln) if x <= ln})
                es = [form.format(s=f'{pre}"{txt}"', n=n) for n in ns]
                decl = ''.join(f'static {ct} *p{i}_@ = {e}; ' for i, e in enumerate(es)) + f'static struct {{ s8 x; {ct} *p[{len(es)}]; }} t_@ = {{3, {{{", ".join(es)}}}}}; static u64 h_@({ct} *p){{ u64 h = 5; for(; *p; p++) h = HX(h, *p); return h; }}'
                if ln <= 600 or fn == 'add':
                    yield (f'addr/str{pre}/{ln}/{fn}', decl, ''.join(f'O(h_@(p{i}_@)); O(h_@(t_@.p[{i}]));' for i in range(len(es))), 2 * len(es))
    for n in (2, 7, 8, 9, 31, 100, 257, 1000, 5000) + ((70000,) if th else ()):
        for i in sorted({0, 1, n // 2, n - 1}):
            for t in ('s8', 's32', 'XY'):
                v = '{3, 4}' if t == 'XY' else '77'
                yield (f'sparse/{t}/{n}/{i}', f'static {t} g_@[{n}] = {{[{i}] = {v}}}; static u64 b_@({t} *p){{ return HB(p, sizeof({t}) * {n}); }} static u64 l_@(void){{ dirty(); {t} l[{n}] = {{[{i}] = {v}}}; return b_@(l); }}', 'dirty(); O(HB(g_@, sizeof(g_@))); O(l_@());', 2)


def body(c):
    its = uniq(list(items(c.thorough)))
    c.cov['programs'] = len(its)
    Diff(c, batch=50, head=HEAD + PRE, ref_opt='-O0').run(its)
    for k in (50, len(its) // 2, len(its) - 60):
        c.sample({'key': its[k].key, 'decl': its[k].decl[:600], 'body': its[k].body[:600]})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'for each of the listed types every initialiser list of up to two entries over (designators x values), of three entries over the reduced values, for complete and incomplete array types; those clang accepts without excess or constraint errors are compiled as static, const, block-static, automatic (non-constant values, dirtied stack) and compound literal; every member is observed. Non-trivial: expected observations not all zero.'
    c.assumptions += ['clang-18 is the oracle for the meaning of an initialiser and for which generated lists are valid C']


if __name__ == '__main__':
    main('C07', 'exploration', body)
