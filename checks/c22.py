"""C22: a call of a __declspec(printlike) function passes the format string and the arguments which the documentation describes.
Every call is compiled by hlc as written; the same call spelled out by the model (explicit printf format, explicit arguments) is compiled by the reference; a recording function notes the format string,
every argument the format asks for, the number of side effects and the values around the call."""
from common import *
import itertools

HD = HEAD + r'''
#include <stdarg.h>
static u64 cnt_;
static u64 h1_;
PL static int print(char *f, ...){
    va_list va; va_start(va, f);
    u64 n = 0, h = 14695981039346656037ull, w = 0;
    u64 *o = o_, k = 0;
    for(char *s = f; *s; s++, n++){ h = (h ^ (u8)*s) * 1099511628211ull; if(n < 64) o[n >> 3] |= (u64)(u8)*s << ((n & 7) * 8); }
    o[8] = h; o[9] = n;
    for(char *s = f; *s; s++) if(*s == '%'){
        s++;
        if(*s == '%') continue;
        u64 prec = ~0ull, star = 0;
        while(*s == '-' || *s == '+' || *s == ' ' || *s == '#' || *s == '0') s++;
        if(*s == '*'){ w = w * 31 + va_arg(va, int); s++; } else while(*s >= '0' && *s <= '9') s++;
        if(*s == '.'){ s++; prec = 0; if(*s == '*'){ prec = va_arg(va, int); w = w * 31 + prec; s++; } else while(*s >= '0' && *s <= '9') prec = prec * 10 + (*s++ - '0'); }
        u64 ll = 0; while(*s == 'l' || *s == 'h'){ if(*s == 'l') ll++; s++; }
        u64 v = 0xdead;
        if(*s == 'd' || *s == 'u' || *s == 'x' || *s == 'o' || *s == 'i' || *s == 'X' || *s == 'c') v = ll == 2 ? va_arg(va, u64) : va_arg(va, u32);
        else if(*s == 'f' || *s == 'g' || *s == 'e'){ union { double d; u64 u; } x; x.d = va_arg(va, double); v = x.u; }
        else if(*s == 'p') { v = (u64)va_arg(va, void *); if(v >= 0x180000000ull && v < 0x190000000ull){ char *q = (char *)v; v = 9; for(u64 i = 0; i < 16 && q[i]; i++) v = v * 131 + (u8)q[i]; } }
        else if(*s == 's'){ char *q = va_arg(va, char *); v = 7; for(u64 i = 0; i < prec && q[i]; i++) v = v * 131 + (u8)q[i]; }
        else break;
        if(k < 26) o[10 + k] = v; else w = w * 1099511628211ull + v;
        k++;
    }
    o[36] = w; o[37] = k;
    va_end(va);
    h1_ += h;
    o_ = o + 38;
    return 1000 + (int)k;
}
PL static int fprint(int fd, char *f, ...){ va_list va; va_start(va, f); o_[0] = fd; u64 n = 0, k = 0; for(char *s = f; *s; s++){ o_[1] = o_[1] * 31 + (u8)*s; if(*s == '%'){ k++; o_[2] = o_[2] * 31 + va_arg(va, u32); } } o_ += 3; va_end(va); return 7 + (int)k; }
enum e { E0, E7 = 7, EM = -3 };
'''
HLC_PRE = '#define PL __declspec(printlike)\n#define P(a, b) a\n'
REF_PRE = '#define PL\n#define P(a, b) b\n'

# name, declaration of a variable ('$' is the declarator), initial value, value 2, format class
D, X, LL, ULL, F, PTR, STR = 'd', 'x', 'lld', 'llx', 'f', 'p', 'str'
SCAL = {
    'bool': ('_Bool $', '1', '0', D), 'char': ('char $', "'q'", '-5', D), 'schar': ('signed char $', '-128', '5', D), 'uchar': ('unsigned char $', '200', '7', D),
    'short': ('short $', '-30000', '12', D), 'ushort': ('unsigned short $', '60000', '12', D), 'int': ('int $', '-2147483647', '77', D), 'uint': ('unsigned int $', '4000000000u', '3', X),
    'long': ('long $', '-5', '6', D), 'ulong': ('unsigned long $', '4000000001u', '3', X), 'llong': ('long long $', '-5000000000ll', '1', LL), 'ullong': ('unsigned long long $', '0xfedcba9876543210ull', '2', ULL),
    'float': ('float $', '1.25f', '-2.5f', F), 'double': ('double $', '-1e100', '0.1', F), 'enum': ('enum e $', 'E7', 'EM', D),
    'voidp': ('void *$', '(void *)0x12345678', '(void *)-1', PTR), 'intp': ('int *$', '(int *)0x1000', '(int *)0', PTR), 'charp': ('char *$', '"hello"', '"x"', STR), 'fnp': ('int (*$)(int)', '(int (*)(int))0x3000', '(int (*)(int))0', PTR), 'ucharp': ('unsigned char *$', '(unsigned char *)0x3333', '(unsigned char *)0', PTR),
    'ppchar': ('char **$', '(char **)0x4444', '(char **)1', PTR),
}
TYPENAME = {'char': 'char', 'int': 'int', 'uint': 'unsigned int', 'float': 'float', 'double': 'double', 'short': 'short'}


class Spec:
    """one placeholder: text in the format, text in the variable form {v..}, extra arguments before, (width, precision, letters, multi line)"""
    def __init__(self, text, w='', p='', t='', multi=False, stars=0, style='{'):
        self.text, self.w, self.p, self.t, self.multi, self.stars, self.style = text, w, p, t, multi, stars, style


def specs():
    o = [Spec('{}'), Spec('%?', style='%'), Spec('{:}'), Spec('{:#}', multi=True), Spec('%#?', multi=True, style='%')]
    for t in 'xudons':
        o.append(Spec('{:%s}' % t, t=t))
    o += [Spec('{:8}', '8'), Spec('{:12x}', '12', t='x'), Spec('{:.3}', p='3'), Spec('{.5}', p='5'), Spec('{:6.2}', '6', '2'), Spec('{:10.4x}', '10', '4', 'x'), Spec('{:.12o}', p='12', t='o'), Spec('{:.2s}', p='2', t='s'), Spec('{.3s}', p='3', t='s'), Spec('{:7s}', '7', t='s'),
          Spec('{:#x}', t='x', multi=True), Spec('{#}', multi=True), Spec('%5?', '5', style='%'), Spec('%.4?', p='4', style='%'), Spec('%9.4?', '9', '4', style='%'),
          Spec('{:*}', '*', stars=1), Spec('{:.*}', p='*', stars=1), Spec('{:*.*}', '*', '*', stars=2), Spec('{:*.3}', '*', '3', stars=1), Spec('{.*s}', p='*', t='s', stars=1), Spec('{*}', '*', stars=1), Spec('%*?', '*', stars=1, style='%'), Spec('%.*?', p='*', stars=1, style='%'), Spec('%*.*?', '*', '*', stars=2, style='%')]
    return o


def fmt_scalar(cls, sp):
    dot = '.' if sp.p else ''
    if cls == STR:
        return '%' + sp.w + dot + sp.p + ('s' if 's' in sp.t else 'p')
    if cls == PTR:
        return '%' + sp.w + dot + sp.p + 'p'
    if cls == F:
        return '%' + sp.w + dot + sp.p + 'f'
    signed = cls in (D, LL)
    c = 'd' if signed else 'x'
    for t in sp.t:
        if t == 'n':
            c = 'd' if signed else 'u'
        elif t in 'xudo':
            c = t
    pre = {'x': '0x', 'o': '0o'}.get(c, '')
    return pre + '%' + sp.w + dot + sp.p + ('ll' if cls in (LL, ULL) else '') + c


# aggregates: a type is ('struct', tag, members) / ('union', tag, members) / ('array', element, n) / ('bits', base declaration, width, class); member: (name or None, type)
def cdecl(t, name):
    if isinstance(t, str):
        return SCAL[t][0].replace('$', name)
    if t[0] == 'array':
        return cdecl(t[1], f'{name}[{t[2]}]')
    if t[0] == 'bits':
        return f'{t[1]} {name} : {t[2]}'
    tag = t[1]
    if t[3:] and t[3] == 'inline':
        return f'{t[0]} {{ ' + ' '.join(cdecl(m, n or '') + ';' for n, m in t[2]) + f' }} {name}'
    return f'{t[0]} {tag} {name}'


def body_of(t):
    return f'{t[0]} {t[1]} {{ ' + ' '.join(cdecl(m, n or '') + ';' for n, m in t[2]) + ' };'


def tname(t):
    if isinstance(t, str):
        return TYPENAME[t]
    if t[0] == 'array':
        e = t[1]
        if not isinstance(e, str) and e[0] == 'array':
            return None
        return f'{tname(e)}[{t[2]}]'
    return f'{t[0]} {t[1]}'


def leaves(t, path=''):
    """(path, class) of everything printed, in order"""
    if isinstance(t, str):
        yield path, SCAL[t][3]
    elif t[0] == 'bits':
        yield path, t[3]
    elif t[0] == 'array':
        for i in range(t[2]):
            yield from leaves(t[1], path + f'[{i}]')
    else:
        for n, m in t[2]:
            yield from leaves(m, path + (f'.{n}' if n else ''))
            if t[0] == 'union':
                break


def fill(t, path, k):
    """initialise every byte that is printed"""
    out = []
    for i, (p, cls) in enumerate(leaves(t)):
        v = {D: (i * 37 + k * 11) % 100 - 30, X: (i * 37 + k * 11) % 1000, LL: -(i + k) * 5000000000, ULL: (i + k + 3) * 0x123456789, F: (i + k) * 0.75 - 1, PTR: (i + k) * 0x1010, STR: None}[cls]
        if cls == STR:
            out.append(f'{path}{p} = "s{i}{k}";')
        elif cls == PTR:
            out.append(f'{path}{p} = (void *){v};')
        elif cls == 'b1':
            out.append(f'{path}{p} = 1;')
        else:
            out.append(f'{path}{p} = {v}{"ll" if cls in (LL, ULL) else ""};')
    return ' '.join(out)


def fmt(t, sp):
    """format text and list of member paths"""
    if isinstance(t, str) or t[0] == 'bits':
        return fmt_scalar(SCAL[t][3] if isinstance(t, str) else t[3], sp), ['']
    if t[0] == 'array' and 's' in sp.t:
        return ('%' + sp.w + ('.' if sp.p else '') + sp.p + ('s' if t[1] == 'char' else 'p')), ['']
    ls = list(leaves(t))
    parts = [f'{p} = {fmt_scalar(c, sp)}' for p, c in ls]
    head = f'({tname(t)}){{'
    if sp.multi:
        return head + '\\n' + ''.join('    ' + x + ',\\n' for x in parts) + '}', [p for p, c in ls]
    return head + ', '.join(parts) + '}', [p for p, c in ls]


STARARGS = ['cnt_++ + 5', '(short)3']
CLOB = 'u64 z0 = h1_ ^ 0x1111, z1 = h1_ ^ 0x2222, z2 = h1_ + 77; double zd = (double)(h1_ & 0xffff) * 0.5;'
TAIL = ' O(cnt_); O(z0 ^ h1_); O(z1 + z2); OD(zd);'


def forms_scalar(t):
    d, v1, v2, cls = SCAL[t]
    decl = lambda n: d.replace('$', n)
    T = d.replace('$', '')
    o = [('local', f'{decl("v")} = {v1};', 'v'), ('static', f'static {decl("v")} = {v1};', 'v'), ('volatile', f'{decl("v0")} = {v1}; {decl("volatile v")} = v0;' if '*' not in d else f'{decl("v")} = {v1};', 'v'),
         ('deref', f'{decl("v")} = {v1}; void *p = &v;', f'*({decl("*")})p' if t != 'fnp' else '*(int (**)(int))p'), ('elem', f'{decl("v[4]")} = {{{v2}, {v2}, {v1}, {v2}}}; volatile int i = 2;', 'v[i]'), ('member', f'struct {{ char pad; {decl("m")}; }} v = {{1, {v1}}};', 'v.m'),
         ('arrow', f'struct {{ char pad; {decl("m")}; }} w = {{1, {v1}}}, *v = &w;', 'v->m'), ('paren', f'{decl("v")} = {v1};', '(v)'), ('comma', f'{decl("v")} = {v1};', '(cnt_++, v)'), ('assign', f'{decl("v")} = {v2}; {decl("w")} = {v1};', 'v = w'),
         ('lit', f'{decl("v")} = {v1};', f'({T})({v1})' if t != 'fnp' else '(int (*)(int))0x3000')]
    if cls in (D, X, LL, ULL, F):
        o += [('neg', f'{decl("v")} = {v2};', f'({T})-v'), ('sum', f'{decl("v")} = {v2}; {decl("w")} = {v2};', f'({T})(v + w * v)'), ('post', f'{decl("v")} = {v2};', 'v++'), ('pre', f'{decl("v")} = {v2};', '++v'), ('compound', f'{decl("v")} = {v2};', 'v += v')]
        if t == 'bool':
            o = [x for x in o if x[0] not in ('post', 'pre', 'compound', 'neg')]
    return o


def esc(s):
    return s.replace('"', '\\"')


def call(fmt_in, args_in, fmt_out, args_out, fn='print', pre_args=''):
    """P((print("…", …)), (print("…", …)))"""
    a = ''.join(', ' + x for x in args_in)
    b = ''.join(', ' + x for x in args_out)
    return f'P(({fn}({pre_args}"{fmt_in}"{a})), ({fn}({pre_args}"{fmt_out}"{b})))'


def item(key, setup, stmts, decl='', nobs=42):
    return Item(key, f'cnt_ = 0; h1_ = 99; {CLOB} {setup} {stmts};{TAIL}', decl, nobs=nobs)


def scalars(th):
    sps = specs()
    for t in SCAL:
        for fi, (fk, setup, ex) in enumerate(forms_scalar(t)):
            for si, sp in enumerate(sps):
                if not th and fi > 1 and si not in (0, 1, 5, 11, 13, 24, 31):
                    continue
                f, _ = fmt(t, sp)
                st = (STARARGS if fk not in ('comma',) else ['cnt_ + 5 - cnt_', '(short)3'])[:sp.stars]
                yield item(f'scalar/{t}/{fk}/{sp.text}', setup, 'h1_ += ' + call(sp.text, st + [ex], f, st + [ex]))
    for t in SCAL:   # the name in the format, or no format
        d, v1, v2, cls = SCAL[t]
        setup = d.replace('$', 'v') + f' = {v1};'
        for sp in sps:
            if sp.style != '{' or sp.text.startswith('{#') or sp.text.startswith('{.') or sp.text.startswith('{*'):
                continue
            f, _ = fmt(t, sp)
            st = STARARGS[:sp.stars]
            rest = sp.text[1:]
            yield item(f'named/{t}/{sp.text}', setup, call('{v' + rest, st, f, st + ['v']))
            yield item(f'named=/{t}/{sp.text}', setup, call('<{v=' + rest + '>', st, '<v = ' + f + '>', st + ['v']))
        f, _ = fmt(t, Spec('{}'))
        yield item(f'bare/{t}', setup, f'P((print(v)), (print("v = {f}\\n", v)))')
        yield item(f'bareexpr/{t}', setup, f'P((print((0, v))), (print("{f}\\n", v)))')
    bare = ['int', 'ullong', 'double', 'charp', 'uchar', 'float', 'voidp']
    for n in (2, 3):
        for ts in itertools.product(bare, repeat=n):
            setup = ' '.join(SCAL[t][0].replace('$', f'v{i}') + f' = {SCAL[t][1]};' for i, t in enumerate(ts))
            f = ' '.join(f'v{i} = {fmt(t, Spec("{}"))[0]}' for i, t in enumerate(ts))
            a = ', '.join(f'v{i}' for i in range(n))
            yield item(f'bare/{"/".join(ts)}', setup, f'h1_ += P((print({a})), (print("{f}\\n", {a})))')


def bits(b, w, c):
    return ('bits', b, w, c)


INNER = ('struct', 'in', [('x', 'int'), ('y', 'uchar')])
UN = ('union', 'un', [('p', 'uint'), ('q', 'float')])
UN2 = ('union', 'un2', [('s', ('struct', 'in', INNER[2])), ('l', 'llong')])
DEEP = ('struct', 'deep', [('i', INNER), ('a', ('array', INNER, 2)), ('u', UN)])
PRE = ' '.join(body_of(t) for t in (INNER, UN, UN2, DEEP)) + '\n'
MEMBERS = ['int', 'uchar', 'char', 'ushort', 'uint', 'ullong', 'float', 'double', 'bool', 'enum', 'charp', 'voidp', bits('int', 5, D), bits('unsigned', 3, D), bits('unsigned', 32, X), bits('unsigned long long', 40, ULL),
           INNER, UN, UN2, DEEP, ('array', 'int', 2), ('array', 'char', 3), ('array', ('array', 'short', 2), 2), ('array', INNER, 2), ('array', UN, 2),
           ('struct', '', [('m1', 'int'), ('m2', 'double')], 'inline'), ('anon', 'struct'), ('anon', 'union'), ('anon', 'deep')]


def mk_member(i, m):
    if isinstance(m, tuple) and m[0] == 'anon':
        if m[1] == 'struct':
            return (None, ('struct', '', [(f'n{i}a', 'short'), (f'n{i}b', 'llong')], 'inline'))
        if m[1] == 'union':
            return (None, ('union', '', [(f'n{i}a', 'uint'), (f'n{i}b', 'float')], 'inline'))
        return (None, ('struct', '', [(f'n{i}a', 'char'), (None, ('union', '', [(f'n{i}b', 'float'), (f'n{i}c', 'int')], 'inline')), (f'n{i}d', ('array', 'uchar', 2))], 'inline'))
    return (f'm{i}', m)


def agg_types(th):
    for k in ('struct', 'union'):
        for n in (1, 2) + ((3,) if th else ()):
            ms = MEMBERS if n < 3 else MEMBERS[::2]
            for t in itertools.product(range(len(ms)), repeat=n):
                if k == 'union' and n > 1 and not th and t[1] not in (0, 6, 16):
                    continue
                yield (k, 'S_@', [mk_member(i, ms[j]) for i, j in enumerate(t)]), f'{k}/{"-".join(map(str, t))}' + ('h' if n == 3 else '')
    for n in (4, 5, 6, 7, 8):
        yield ('struct', 'S_@', [(f'm{i}', MEMBERS[(i * 7 + n) % 14]) for i in range(n)]), f'struct/len{n}'
    for e in ('int', 'char', 'uint', 'float', 'short', 'double', INNER, UN, DEEP):
        for n in (1, 2, 3):
            yield ('array', e, n), f'array/{e if isinstance(e, str) else e[1]}/{n}'


def agg_forms(t, key):
    d = body_of(t) + '\n' if t[0] != 'array' else ''
    a = cdecl(t, 'v')
    T = f'{t[0]} S_@'
    o = [('local', d, a + '; ' + fill(t, 'v', 1), 'v', 'v'), ('global', d + f'static {cdecl(t, "g_@")};\n', fill(t, 'g_@', 2), 'g_@', 'g_@')]
    if t[0] == 'array':
        o += [('deref', d, a + '; ' + fill(t, 'v', 1) + f' {cdecl(t, "(*p)")} = &v;', '*p', 'v'), ('member', d + f'struct W_@ {{ char c; {cdecl(t, "w")}; }};\n', 'struct W_@ v; ' + fill(t, 'v.w', 3), 'v.w', 'v.w'), ('cond', d, a + '; ' + fill(t, 'v', 1), '(v)', 'v')]
        return o
    fn = f'static {T} *f_@(void){{ cnt_++; static {T} v; {fill(t, "v", 4)} return &v; }}\nstatic {T} r_@(int n, {T} *p){{ cnt_++; (void)n; return *p; }}\n'
    v = a + f'; {fill(t, "v", 1)}'
    o += [('deref', d, v + f' {T} *p = &v;', '*p', 'v'), ('derefcall', d + fn, f'{T} *w = f_@(); cnt_ = 0;', '*f_@()', '(*w)'), ('elem', d, f'{T} a[3]; {fill(t, "a[2]", 5)} volatile int i = 2;', 'a[i]', 'a[i]'), ('elemside', d, f'{T} a[3]; {fill(t, "a[2]", 5)} volatile int i = 1;', 'a[i += (cnt_++ == 0)]', 'a[2]'),
          ('member', d + f'struct W_@ {{ char c; {T} w; }};\n', f'struct W_@ v; {fill(t, "v.w", 3)}', 'v.w', 'v.w'), ('arrow', d + f'struct W_@ {{ char c; {T} w; }};\n', f'struct W_@ v, *p = &v; {fill(t, "v.w", 3)}', 'p->w', 'v.w'),
          ('call', d + fn, v + ' ', 'r_@(3, &v)', 'v'), ('assign', d, v + f' {T} w;', 'w = v', 'v'), ('comma', d, v, '(cnt_++, v)', 'v'), ('cond', d, v + f' {T} w; w = v; volatile int z = 0;', 'z ? w : v', 'v'), ('paren', d, v, '(v)', 'v'), ('param', d, v, None, 'v')]
    return o


SIDE = {'derefcall': 1, 'elemside': 1, 'call': 1, 'comma': 1}
ASPEC = [Spec('{}'), Spec('{:#}', multi=True), Spec('{:x}', t='x'), Spec('%?', style='%'), Spec('{:5.2}', '5', '2'), Spec('%#8?', '8', style='%', multi=True), Spec('{:s}', t='s'), Spec('{:n}', t='n')]


def aggregates(th):
    for n, (t, key) in enumerate(agg_types(th)):
        if t[0] == 'array' and tname(t) is None:
            continue
        for fi, (fk, decl, setup, ex, ref) in enumerate(agg_forms(t, key)):
            if ex is None:
                continue
            many = key.count('-') == 2
            if not th and key.count('-') == 1 and fi > 0 and (n + fi) % 4:
                continue   # quick: every form with every single-member type, and a quarter of the forms per pair
            for si, sp in enumerate(ASPEC):
                if 's' in sp.t and t[0] == 'array' and t[1] != 'char' and 'g_' not in ref:
                    continue   # prints the address of a local array
                if fi and si not in ((0, 1, 2) if th and not many else (0,)) and not (key.count('-') == 0 and si < 4):
                    continue
                if many and si > 1:
                    continue
                f, ps = fmt(t, sp)
                bump = f'(cnt_ += {SIDE.get(fk, 0)}, ' if SIDE.get(fk) else '('
                yield item(f'agg/{key}/{fk}/{sp.text}', setup, f'h1_ += P((print("{sp.text}", {ex})), {bump}print("{f}", ' + ', '.join(ref + p for p in ps) + ')))', decl)
            if fi == 0 and not many:
                f, ps = fmt(t, ASPEC[0])
                a = ', '.join('v' + p for p in ps)
                yield item(f'agg/{key}/bare', setup, f'P((print(v)), (print("v = {f}\\n", {a})))', decl)
                yield item(f'agg/{key}/named', setup, f'P((print("%d{{v}}.", 3)), (print("%d{f}.", 3, {a})))', decl)
                f, ps = fmt(t, ASPEC[1])
                yield item(f'agg/{key}/named#', setup, f'P((print("{{v=:#}}%d", 4)), (print("v = {f}%d", {a}, 4)))', decl)


SEQ = [('{}', 'int', 'i1', None), ('{:x}', 'int', 'i1 * 3', None), ('{}', 'double', 'd1', None), ('{}', 'float', 'f1', None), ('%d', None, 'i1', '%d'), ('%5.2f', None, 'd1', '%5.2f'), ('{:s}', 'charp', 's1', None), ('%s', None, 's1', '%s'), ('{:*}', 'uint', 'u1', None), ('%*d', None, 'i1', '%*d'),
       ('{}', 'ullong', 'q1', None), ('%llx', None, 'q1', '%llx'), ('{}', INNER, 'in1', None), ('{:#}', DEEP, 'de1', None), ('{u1}', 'uint', None, None), ('{in1=}', INNER, None, None), ('%?', 'bool', 'b1', None), ('{}', 'int', 'side_@()', None), ('{}', 'int', 'print("{}", i1)', None), ('%c', None, "'q'", '%c'), ('%p', None, '(void *)0x77', '%p')]
TEXT = ['', ' ', 'a%%b', '{ ', '}', '{', '{x ', '{ y = ', '%%', '{{', '\\n', ' {0 ']
SETUP = 'int i1 = -77; double d1 = 2.75; float f1 = -0.5f; char *s1 = "str"; unsigned u1 = 0x90000001u; u64 q1 = 0x123456789abcdefull; _Bool b1 = 1; struct in in1 = {5, 6}; struct deep de1 = {{1, 2}, {{3, 4}, {5, 6}}, {7}};'
SDECL = 'static int side_@(void){ return (int)++cnt_ * 100; }\n'


def seq_item(seq, texts, key, extra_pre=''):
    fi, fo, ai, ao = texts[0], texts[0], [], []
    nested = 0
    for (text, t, ex, cfmt), tx in zip(seq, texts[1:]):
        fi += text + tx
        if '*' in text:
            ai.append('6')
            ao.append('6')
        if cfmt:
            fo += cfmt + tx
            ai.append(ex)
            ao.append(ex)
            continue
        sp = {'{}': Spec('{}'), '{:x}': Spec('', t='x'), '{:s}': Spec('', t='s'), '{:*}': Spec('', '*'), '{:#}': Spec('', multi=True), '%?': Spec('')}.get(text, Spec(''))
        f, ps = fmt(t, sp)
        name = ex
        if ex is None:
            name = text[1:-1].rstrip('=')
            if '=' in text:
                f = f'{name} = ' + f
        else:
            ai.append(ex)
        fo += f + tx
        if ex and ex.startswith('print('):
            nested += 1
            ao.append('print("%d", i1)')
        else:
            ao += [name + p for p in ps]
    nob = 38 * (nested + 1) + 4
    return item(key, SETUP, extra_pre + 'h1_ += ' + call(fi, ai, fo, ao), SDECL, nobs=nob)


def sequences(th):
    n = len(SEQ)
    for i in range(n):
        for a in range(len(TEXT)):
            for b in range(len(TEXT)):
                yield seq_item([SEQ[i]], [TEXT[a], TEXT[b]], f'seq1/{i}/{a}-{b}')
    for t in itertools.product(range(n), repeat=2):
        ts = [TEXT[(t[0] * 5 + t[1] + k) % len(TEXT)] for k in range(3)]
        if sum(SEQ[i][2] in ('side_@()',) or (SEQ[i][2] or '').startswith('print(') for i in t) > 1:
            continue   # the order of evaluation of two arguments is not prescribed
        yield seq_item([SEQ[i] for i in t], ts, f'seq2/{t}')
    for t in itertools.product(range(n), repeat=3):
        if sum(SEQ[i][2] in ('side_@()',) or (SEQ[i][2] or '').startswith('print(') for i in t) > 1:
            continue
        if not th and (t[0] + t[1] * 3 + t[2] * 7) % 5:
            continue
        ts = [TEXT[(t[0] * 5 + t[1] + t[2] * 3 + k) % len(TEXT)] for k in range(4)]
        yield seq_item([SEQ[i] for i in t], ts, f'seq3/{t}')
    for k in range(4, 13):   # longer lists
        for r in range(n):
            seq = [SEQ[(r + j * 4) % n] for j in range(k)]
            seq = [s for s in seq if s[2] != 'side_@()' and not (s[2] or '').startswith('print(')]
            yield seq_item(seq, [TEXT[j % len(TEXT)] for j in range(len(seq) + 1)], f'seqn/{k}/{r}')


def misc():
    yield item('misc/prefix', SETUP, 'int k = P((fprint(7, "{} {}", i1, u1)), (fprint(7, "%d 0x%x", i1, u1))); O(k)', nobs=12)
    yield item('misc/prefix-bare', SETUP, 'int k = P((fprint(7, i1, in1)), (fprint(7, "i1 = %d in1 = (struct in){.x = %d, .y = %d}\\n", i1, in1.x, in1.y))); O(k)', nobs=12)
    yield item('misc/noargs', SETUP, 'P((print("plain { text }")), (print("plain { text }")))')
    yield item('misc/percent', SETUP, 'P((print("100%%")), (print("100%%")))')
    yield item('misc/concat', SETUP, 'P((print("{}" " and " "{:x}", i1, i1)), (print("%d and 0x%x", i1, i1)))')
    yield item('misc/cond', SETUP, 'if(i1 < 0 && P((print("{}", i1)), (print("%d", i1))) > 3) cnt_ += 9')
    yield item('misc/fold', SETUP, 'P((print("{} {} {}", 1 + 2, sizeof(int), 1.5 * 2)), (print("%d 0x%llx %f", 3, (u64)4, 3.0)))')
    yield item('misc/scope', SETUP, '{ long long i1 = 5; P((print("{i1}")), (print("%lld", i1))); }')
    yield item('misc/static', SETUP, 'static unsigned char k[2] = {3, 4}; P((print("{k[0]} {}", k)), (print("{k[0]} (unsigned char[2]){[0] = %d, [1] = %d}", 3, 4)))')
    yield item('misc/star-struct', SETUP, 'P((print("{:*}", 6, in1)), (print("(struct in){.x = %*d, .y = %*d}", 6, in1.x, 6, in1.y)))')
    yield item('misc/star-array', SETUP, 'int v[2] = {3, 4}; P((print("%.*?", 3, v)), (print("(int[2]){[0] = %.*d, [1] = %.*d}", 3, v[0], 3, v[1])))')
    for n in (8, 16, 40, 120):
        f = ', '.join(f'[{i}] = %d' for i in range(n))
        yield item(f'misc/array{n}', f'int a[{n}]; for(int i = 0; i < {n}; i++) a[i] = i * i - 9;', f'P((print("{{}}", a)), (print("(int[{n}]){{{f}}}", ' + ', '.join(f'a[{i}]' for i in range(n)) + ')))')


BAD = ['"{}"', '"%d"', '"{} {}", 1', '"%d {}", 1', '"{:*}", 1', '"%*d", 1', '"{:.*}", 1', '"%.*?", 1', '"{nope}"', '"{nope=}"', '"{}", ', '"{}", nope', '"{}", v()', '"{:*}", 1.5, 2', '"%*d", "x", 2', '"{:#", 1', '"{}", 1, 2', '"%d", 1, 2', '"", 1', '"%", 1', '"%l", 1', '"{:*.*}", 1, 2', '', '1, ', 'v()', '"{}" 1', '"{:08", 1', '"%"', '"%5.", 1']


def diagnostics(c):
    """calls with too few or too many arguments and malformed formats end with a diagnostic"""
    def one(a):
        src = 'void v(void);\n__declspec(printlike) int print(char *f, ...);\nint fn(void){ return print(' + a + '); }\n'
        r = c.e.compile({'a.c': src}, 'a.c /obj /no_debug /quiet')
        c.count(1)
        c.seen('bad/' + a)
        if r.kind == 'exit' and r.code == 1 and b'Error' in r.out and b'ASSERT' not in r.out:
            return
        c.violation('bad/' + re.sub(r'\s', '_', a), f'print({a}) must be rejected with a diagnostic: {r.kind} {r.code:#x} {r.out[-300:].decode("latin1")}', {'a.c': src})
    c.e.map(one, BAD)


def body(c):
    c.cov['rule'] = 'an evaluation is one call of a print-like function, compared with the explicit call of the model: format text, all arguments, number of side effects, result and values live around the call'
    its = list(scalars(c.thorough)) + list(aggregates(c.thorough)) + list(sequences(c.thorough)) + list(misc())
    only = os.environ.get('HX_ONLY')
    if only:
        its = [i for i in its if only in i.key]
    for n, it in enumerate(its):
        it.body = it.body.replace('_@', f'_{n}')
        it.decl = it.decl.replace('_@', f'_{n}')
    c.cov['items'] = len(its)
    Diff(c, head=HD + PRE, hlc_pre=HLC_PRE, ref_pre=REF_PRE, ref_flags=['-Wno-everything'], batch=60, ro=None).run(its)
    if not only:
        diagnostics(c)


if __name__ == '__main__':
    sys.exit(main('C22', 'exploration', body))
