from common import *
import itertools, struct as st, subprocess, re
import pe, c13, c03, c06, c07
from gen_expr import *
from gen_stmt import *

TLSRT = r'''
typedef unsigned long long u64;
extern int _tls_index;
__attribute__((section(".tls"))) __attribute__((aligned(1))) char _tls_start = 0;
__attribute__((section(".tls$ZZZ"))) char _tls_end = 0;
const struct { void *a, *b; void *idx; void *cb; unsigned z, c; } _tls_used = { &_tls_start, &_tls_end, &_tls_index, 0, 0, 0x00D00000 };
'''


class Obj:
    """hlc objects linked by lld-link"""
    def __init__(self, ctx):
        self.c = ctx
        self.tls = ctx.ref.obj(TLSRT, '-O1')
        self.rt = ctx.ref.obj('unsigned _tls_index; int _fltused;', '-O1')

    def link(self, objs, args=('/dll', '/noentry'), tls=False, imp=False, out='.dll'):
        """image or None, linker output (which must be empty)"""
        return self.c.ref.link(list(objs) + ([self.tls] if tls else []) + ([self.rt] if imp else []), list(args) + (['/libpath:' + SDK + '/um/x64', '/libpath:' + SDK + '/ucrt/x64', 'kernel32.lib', 'ucrt.lib'] if imp else []), rt=not imp, ok=False, out=out)

    def compile(self, files, args, key, name='a.obj', extra=None):
        """object or None (violation reported)"""
        r = self.c.e.compile({**files, **(extra or {})}, args)
        o = r.files.get(name)
        self.c.count()
        if not r.ok or not o:
            self.c.violation(key, f'hlc {args}: {r.kind} {r.code} {r.out[-400:].decode("latin1")}', {**files, 'args.txt': args})
            return None
        e = coff(o)
        if e:
            self.c.violation(key, 'malformed object: ' + '; '.join(e[:4]), {**files, 'args.txt': args, 'a.obj': o})
            return None
        return o


SDK = '/opt/hlc/sdk/Lib/10.0.1.0'


def coff(d):
    """inconsistencies of a COFF object"""
    errs = []

    def e(c, w):
        if not c:
            errs.append(w)
        return c
    try:
        mach, nsec, ts, sp, ns, oh, ch = st.unpack_from('<HHIIIHH', d, 0)
        e(mach == 0x8664 and oh == 0, 'header')
        stp = sp + 18 * ns
        ssz = st.unpack_from('<I', d, stp)[0]
        e(ssz >= 4 and stp + ssz <= len(d), f'string table {stp:#x}+{ssz:#x}, file {len(d):#x}')
        e(d[stp + ssz - 1] == 0 or ssz == 4, 'string table is not terminated')

        def cstr(o):
            if not e(4 <= o < ssz, f'string table offset {o:#x}'):
                return ''
            return d[stp + o:d.index(b'\0', stp + o)].decode('latin1')
        secs = []
        used = [(0, 20 + 40 * nsec, 'headers'), (sp, stp + ssz, 'symbols')]
        for i in range(nsec):
            nm, vs, va, rs, ro, rp, lp, nr, nl, c = st.unpack_from('<8sIIIIIIHHI', d, 20 + 40 * i)
            nm = nm.rstrip(b'\0').decode('latin1')
            if nm.startswith('/'):
                nm = cstr(int(nm[1:]))
            e(vs == 0 and va == 0, f'virtual position of {nm}')
            if c & 0x80:
                e(ro == 0, f'raw data of {nm}')
            elif rs:
                e(ro + rs <= len(d) and ro >= 20 + 40 * nsec, f'raw data of {nm}')
                used.append((ro, ro + rs, nm))
            cnt, first = nr, 0
            if c & 0x01000000:
                e(nr == 0xffff, f'overflowing relocation count of {nm}')
                cnt = st.unpack_from('<I', d, rp)[0]
                first = 1
                e(cnt > 0xffff, f'{nm} has only {cnt} relocations but the overflow flag')
            if cnt:
                used.append((rp, rp + 10 * cnt, nm + ' relocations'))
                e(rp + 10 * cnt <= len(d), f'relocations of {nm}')
            rel = [st.unpack_from('<IIH', d, rp + 10 * k) for k in range(first, cnt)]
            al = (c >> 20 & 15)
            e(al <= 14, f'alignment of {nm}')
            e(bool(c & 0x20) == bool(c & 0x20000000), f'characteristics of {nm}')
            secs.append((nm, rs, c, rel))
        used.sort()
        for a, b in zip(used, used[1:]):
            e(a[1] <= b[0], f'{a[2]} {a[0]:#x}..{a[1]:#x} and {b[2]} {b[0]:#x}.. overlap')
        i = 0
        starts = set()
        ext = {}
        while i < ns:
            nm, v, sc, ty, cl, aux = st.unpack_from('<8sIhHBB', d, sp + 18 * i)
            nm = cstr(st.unpack('<I', nm[4:])[0]) if nm[:4] == b'\0\0\0\0' else nm.rstrip(b'\0').decode('latin1')
            starts.add(i)
            e(nm != '', f'symbol {i} without a name')
            e(-1 <= sc <= nsec and sc != -2, f'section of {nm}')
            if sc > 0 and cl in (2, 3):
                e(v <= secs[sc - 1][1], f'{nm} lies outside of its section')
            if cl == 2:
                e(nm not in ext, f'external symbol {nm} appears twice')
                ext[nm] = (sc, v)
            i += 1 + aux
        e(i == ns, 'symbol count')
        for nm, rs, c, rel in secs:
            seen = set()
            for va, sy, ty in rel:
                size = 8 if ty == 1 else 2 if ty == 10 else 4
                e(va + size <= rs, f'relocation outside of {nm}')
                e(sy in starts, f'relocation of {nm} for symbol {sy}')
                e(1 <= ty <= 11, f'relocation type {ty} in {nm}')
                e(va not in seen, f'two relocations at {nm}+{va:#x}')
                seen.add(va)
    except (st.error, ValueError, IndexError) as x:
        errs.append(f'cannot read the object: {x}')
    return errs


# ---------------------------------------------------------------- 1. everything in one object, all feature subsets (of C13)
def features(ctx, ob):
    F = c13.feats()
    jobs = []
    for k in range(1 << len(F)):
        for oi, opt in enumerate(('', '/no_debug')):
            if ctx.thorough or bin(k).count('1') <= 2 or bin(k).count('1') >= len(F) - 1 or (k * 7 + oi) % 6 == 0:
                jobs.append((k, opt))

    def go(j):
        k, opt = j
        fs = [f for i, f in enumerate(F) if k >> i & 1]
        names = [f.name for f in fs]
        key = f'features/{"+".join(names) or "none"}/{opt.strip("/") or "debug"}'
        src = c13.program(fs, 'dll')
        o = ob.compile({'a.c': src}, f'a.c /c /quiet {opt}', key)
        if not o:
            return
        exp = [v & (1 << 64) - 1 for f in fs for v in f.exp]
        exports = {n: v for f in fs for n, v in f.exports.items()}
        img, out = ob.link([o], ('/dll', '/noentry') + (('/debug',) if not opt and k % 3 == 0 else ()), tls='tls' in names, imp='imp' in names)
        if not img or out.strip():
            ctx.violation(key, f'lld-link: {out[:500]}', {'a.c': src, 'a.obj': o})
            return
        p, errs = pe.check(img)
        if not p or set(p.exp) != set(exports) | {'run'}:
            ctx.violation(key, f'exports {p and sorted(p.exp)}', {'a.c': src, 'a.obj': o})
            return
        for base in (0, 0x20000000):
            x = ctx.e.run_dll(img, base=base, tls_index=3)
            g = list(st.unpack(f'<{len(exp)}Q', x.buf[:8 * len(exp)])) if x.kind == 'exit' else None
            if g != exp or x.ret != 8 * len(exp):
                i = next((i for i in range(len(exp)) if g and g[i] != exp[i]), -1)
                ctx.violation(key, f'{x.kind} {x.code} {x.errs} returned {x.ret}; observation {i}: {g and hex(g[i])}, expected {hex(exp[i]) if exp else None}', {'a.c': src, 'a.obj': o})
                return
            for n, v in exports.items():
                x = ctx.e.run_dll(img, export=n, base=base)
                if x.ret & 0xffffffff != v:
                    ctx.violation(key, f'export {n} returned {x.ret:#x}', {'a.c': src})
                    return
        ctx.seen(key)
    ctx.e.map(go, jobs)
    ctx.sample('features/dptr+tls: every subset of the image features of C13, through an object file and lld-link')


# ---------------------------------------------------------------- 2. definitions in one object, uses in the other
X = [
    ('func', 'int xf(int a){ return a * 3; } struct X1 { s64 a, b, c; }; struct X1 xg(struct X1 a, double d){ a.a += (s64)d; return a; } double xh(float a, int b, double c, u8 d, s16 e){ return a + b + c + d + e; }',
     'int xf(int a); struct X1 { s64 a, b, c; }; struct X1 xg(struct X1 a, double d); double xh(float a, int b, double c, u8 d, s16 e);',
     'O(xf(5)); struct X1 l = { 1, 2, 3 }; l = xg(l, 4.5); O(l.a * 100 + l.b * 10 + l.c); O((s64)(xh(1.5f, 2, 3.25, 250, -5) * 4)); int (*q)(int) = xf; O(q(-1));', [15, 523, 1007, -3]),
    ('data', 'int xd = 5; int *xpd = &xd; s16 xs_[5] = { 1, -2, 3, 4, 5 }; struct XD { char c; s64 v; int *p; } xst[2] = { { 1, 2, &xd }, { 3, -4, (int *)&xs_[2] } };',
     'extern int xd; extern int *xpd; extern s16 xs_[5]; struct XD { char c; s64 v; int *p; }; extern struct XD xst[2]; int *xown = &xd; s16 *xown2 = &xs_[3];',
     'O(xd); xd = 9; O(*xpd); O(xs_[1]); O(xst[1].v); O(*xst[0].p); O(*(s16 *)xst[1].p); O(*xown); O(*xown2); xs_[4] += 7; O(xs_[4]);', [5, 9, -2, -4, 9, 3, 9, 4, 12]),
    ('bss', 'int xb; char xbs[5000]; struct XB { s64 q[3]; } xbb; static int xhid = 4;', 'extern int xb; extern char xbs[]; struct XB { s64 q[3]; }; extern struct XB xbb; static int xhid = 6; static char xzero[100];',
     'O(xb | xbs[4999] | xbb.q[2]); xb = 1; xbs[4999] = 2; xbb.q[2] = 3; O(xb + xbs[4999] + xbb.q[2]); O(xhid); O(xzero[99]); xzero[99] = 1; O(xbs[0]);', [0, 6, 6, 0, 0]),
    ('common', 'int xc; s64 xcc[4];', 'int xc; s64 xcc[4]; int *xcp = &xc;', 'O(xc); xc = 4; O(*xcp); xcc[3] = 8; O(xcc[3]);', [0, 4, 8]),
    ('tls', '__declspec(thread) int xt = 4; __declspec(thread) u8 xt1 = 200; __declspec(thread) s64 xtz; __declspec(thread) char *xts = "tls";', 'extern __declspec(thread) int xt; extern __declspec(thread) u8 xt1; extern __declspec(thread) s64 xtz; extern __declspec(thread) char *xts; static __declspec(thread) int xown_t = 31;',
     'O(xt); O(xt1); O(xtz); O(xts[2]); xt += 5; O(xt); xtz = -1; O(xtz); O(xown_t++); O(xown_t);', [4, 200, 0, 115, 9, -1, 31, 32]),
    ('fptr', 'static int xs1(int a){ return a + 100; } static int xs2(int a){ return a - 100; } int (*xtab[3])(int) = { xs1, xs2, xs1 }; int xcall(int (*f)(int), int v){ return f(v); }',
     'extern int (*xtab[3])(int); int xcall(int (*f)(int), int v); static int xs1(int a){ return a * 2; }', 'O(xtab[0](1)); O(xtab[1](1)); O(xcall(xs1, 21)); O(xtab[2] == xtab[0]); O(xtab[0] == xs1);', [101, -99, 42, 1, 0]),
    ('str', 'const char *xstr[3] = { "alpha", "beta\\0x", "" }; const u16 *xw = L"wide"; char xarr[] = "arr"; const char *xget(void){ return "alpha"; }', 'extern const char *xstr[3]; extern const u16 *xw; extern char xarr[]; const char *xget(void);',
     'O(xstr[0][4]); O(xstr[1][5]); O(xstr[2][0]); O(xw[3]); O(xw[4]); O(xarr[2]); O(xget()[1]); O("beta"[1]); O(L"wide"[1]);', [97, 120, 0, 101, 0, 114, 108, 101, 105]),
    ('flt', 'double xfl = 2.5; float xff[2] = { 1.5f, -8.25f }; double xmul(double a){ return a * 3.5; }', 'extern double xfl; extern float xff[2]; double xmul(double a);', 'O((s64)(xmul(xfl) * 4)); O((s64)(xff[1] * 4.0f)); xff[0] = 2.25f; O((s64)((xff[0] + 1.75f) * xfl));', [35, -33, 10]),
    ('sel', '__declspec(selectany) int xsel = 77; __declspec(selectany) int *xselp = &xsel;', '__declspec(selectany) int xsel = 77; extern int *xselp;', 'O(xsel); xsel = 5; O(*xselp);', [77, 5]),
    ('imp', '__declspec(dllimport) u32 GetLastError(void); __declspec(dllimport) void SetLastError(u32); u32 (*ximp)(void) = GetLastError; u32 xgle(void){ return GetLastError(); }', '__declspec(dllimport) u32 GetLastError(void); __declspec(dllimport) void SetLastError(u32); extern u32 (*ximp)(void); u32 xgle(void);',
     'SetLastError(345); O(GetLastError()); O(ximp()); O(xgle());', [345, 345, 345]),
]


def cross(ctx, ob):
    n = len(X)
    modes = ['hh', 'hc', 'ch', 'one', 'direct']
    jobs = []
    for k in range(1 << n):
        for m in modes:
            if ctx.thorough or bin(k).count('1') in (0, 1, n - 1, n) or (k * 5 + modes.index(m)) % 10 == 0:
                jobs.append((k, m))

    def go(j):
        k, mode = j
        key = f'cross/{k:03x}/{mode}'
        H = c13.H + 'typedef short s16; typedef int s32;\n'
        A, B = H, H.replace('static u64 *o_;', 'extern u64 *o_;')
        A = A.replace('static u64 *o_;', 'u64 *o_;')
        ba, bb, ea, eb = '', '', [], []
        for i, (nm, df, ex, body, exp) in enumerate(X):
            if k >> i & 1:
                A += df + '\n'
                B += ex + '\n'
                bb += '{ ' + body + ' }\n'
                eb += exp
            else:
                A += ex + '\n'
                B += df + '\n'
                ba += '{ ' + body + ' }\n'
                ea += exp
        A += f'void rest(void); __declspec(dllexport) u64 run(u64 *p, u64 n){{ o_ = p; {ba} rest(); return (u64)o_ - (u64)p; }}\n'
        B += f'void rest(void){{ {bb} }}\n'
        files = {'a.c': A, 'b.c': B}
        exp = [v & (1 << 64) - 1 for v in ea + eb]
        if mode == 'direct':
            r = ctx.e.compile(files, 'a.c b.c /dll /no_entry /no_stdlib /quiet /out a.dll /l kernel32.lib')
            ctx.count()
            img = r.files.get('a.dll')
            if not img or r.code:
                ctx.violation(key, f'{r.kind} {r.code} {r.out[-300:]}', files)
                return
        else:
            objs = []
            if mode == 'one':
                o = ob.compile(files, 'a.c b.c /c /quiet', key)
                if not o:
                    return
                objs = [o]
            else:
                for f, w in zip(('a', 'b'), mode):
                    if w == 'h':
                        o = ob.compile({f + '.c': files[f + '.c']}, f'{f}.c /c /quiet' + (' /no_debug' if k % 2 else ''), key, name=f + '.obj')
                        if not o:
                            return
                    else:
                        o = ctx.ref.obj(files[f + '.c'], '-O1', ('-fms-compatibility-version=19.20',))
                    objs.append(o)
            img, out = ob.link(objs, tls=True, imp=True)
            if not img or out.strip():
                ctx.violation(key, f'lld-link: {out[:500]}', files)
                return
        x = ctx.e.run_dll(img, base=0, tls_index=2)
        g = list(st.unpack(f'<{len(exp)}Q', x.buf[:8 * len(exp)])) if x.kind == 'exit' else None
        if g != exp or x.ret != 8 * len(exp):
            i = next((i for i in range(len(exp)) if g and g[i] != exp[i]), -1)
            ctx.violation(key, f'{x.kind} {x.code} {x.errs} returned {x.ret}; observation {i}: {g and hex(g[i])}, expected {hex(exp[i])}', files)
        ctx.seen(key)
    ctx.e.map(go, jobs)
    ctx.sample('cross/2a5/hc: which of two objects defines each of ten kinds of symbols x {hlc+hlc, hlc+clang, clang+hlc, one object, direct}')


# ---------------------------------------------------------------- 3. linkage of one name in three translation units
FORMS3 = {  # text, (linkage class, value)
    'none': ('', None), 'ext': ('extern int x;', 'use'), 'tent': ('int x;', 'tent'), 'def': ('int x = 10{i};', 'def'), 'zero': ('int x = 0;', 'def0'), 'stat': ('static int x = 20{i};', 'own'), 'stz': ('static int x;', 'own0'), 'exttent': ('extern int x; int x;', 'tent'), 'extdef': ('extern int x; int x = 10{i};', 'def'), 'defext': ('int x = 10{i}; extern int x;', 'def'),
}
FFORMS3 = {
    'none': ('', None), 'ext': ('int x(void);', 'use'), 'def': ('int x(void){{ static int n = 10{i}; return n++; }}', 'def'), 'stat': ('static int x(void){{ static int n = 20{i}; return n++; }}', 'own'), 'late': ('int x(void); int (*px{i})(void) = x; int x(void){{ static int n = 10{i}; return n++; }}', 'def'),
}


def linkage(ctx, ob):
    jobs = []
    for kind, forms in (('v', FORMS3), ('f', FFORMS3)):
        names = list(forms)
        if not ctx.thorough:
            names = [n for n in names if n not in ('extdef', 'defext', 'exttent')]
        for c in itertools.product(names, repeat=3):
            if c.count('none') == 3:
                continue
            for mode in ('sep', 'one', 'split', 'direct'):
                if mode == 'sep' and not ctx.thorough and list(c) != sorted(c, key=names.index) and hash(c) % 3:
                    pass
                jobs.append((kind, c, mode))

    def go(j):
        kind, c, mode = j
        forms = FORMS3 if kind == 'v' else FFORMS3
        cl = [forms[n][1] for n in c]
        key = f'linkage/{kind}/{"-".join(c)}/{mode}'
        defs = [i for i, k in enumerate(cl) if k in ('def', 'def0')]
        tents = [i for i, k in enumerate(cl) if k == 'tent']
        uses = [i for i, k in enumerate(cl) if k == 'use']
        files = {}
        for i, n in enumerate(c):
            s = forms[n][0].format(i=i) if kind == 'v' else forms[n][0].format(i=i)
            if n != 'none':
                s += f' int get{i}(void){{ return {"x" if kind == "v" else "x()"}; }} ' + (f'void set{i}(int v){{ x = v; }}' if kind == 'v' else '')
            files[f'{"abc"[i]}.c'] = s + f' int tu{i};\n'
        have = [i for i, n in enumerate(c) if n != 'none']
        drv = ''.join(f'int get{i}(void); ' + (f'void set{i}(int); ' if kind == 'v' else '') for i in have) + 'typedef unsigned long long u64; __declspec(dllexport) u64 run(u64 *p, u64 n){ u64 *o = p; '
        exp = []
        bad = len(defs) > 1 or (not defs and not tents and uses)
        if not bad:
            shared = {'x': 100 + defs[0] if defs and cl[defs[0]] == 'def' else 0}
            val = {}
            for i in have:
                if cl[i] == 'own':
                    val[i] = [200 + i]
                elif cl[i] == 'own0':
                    val[i] = [0]
                else:
                    val[i] = None
            sh = [shared['x']]
            for i in have:
                if val[i] is None:
                    val[i] = sh
            for r in range(2):
                for i in have:
                    drv += f'*o++ = (u64)(long long)get{i}(); '
                    exp.append(val[i][0])
                    if kind == 'f':
                        val[i][0] += 1
                    else:
                        drv += f'set{i}({500 + r * 10 + i}); '
                        val[i][0] = 500 + r * 10 + i
        else:
            for i in have:
                drv += f'*o++ = get{i}(); '
        drv += 'return (u64)o - (u64)p; }'
        files['d.c'] = drv
        if mode == 'direct' or mode == 'one':
            groups = [['a', 'b', 'c', 'd']]
        elif mode == 'sep':
            groups = [['a'], ['b'], ['c'], ['d']]
        else:
            groups = [['c', 'a'], ['d', 'b']]
        # a static and an external declaration of one name in the sources of one object are separate translation units
        objs = []
        ctx.count()
        for g in groups:
            args = ' '.join(f + '.c' for f in g) + (' /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll' if mode == 'direct' else ' /c /quiet /no_debug /out a.obj')
            r = ctx.e.compile({f + '.c': files[f + '.c'] for f in g}, args)
            if r.kind != 'exit' or r.code not in (0, 1):
                ctx.violation(key, f'hlc {args}: {r.kind} {r.code} {r.out[-300:]}', files)
                return
            o = r.files.get('a.dll' if mode == 'direct' else 'a.obj')
            if r.code or not o:
                if not bad:
                    ctx.violation(key, f'hlc {args} rejected a valid program: {r.out[-300:]}', files)
                else:
                    ctx.seen(key)
                return
            if mode != 'direct':
                e = coff(o)
                if e:
                    ctx.violation(key, 'malformed object: ' + '; '.join(e[:3]), {**files, 'a.obj': o})
                    return
            objs.append(o)
        if mode == 'direct':
            img = objs[0]
            out = ''
        else:
            img, out = ob.link(objs)
            if img and out.strip():
                ctx.violation(key, f'lld-link: {out[:300]}', files)
                return
        if bad:
            if img:
                ctx.violation(key, 'duplicate or missing definition was not diagnosed', files)
            return
        if not img:
            ctx.violation(key, f'valid program does not link: {out[:300]}', files)
            return
        x = ctx.e.run_dll(img)
        g = list(st.unpack(f'<{len(exp)}Q', x.buf[:8 * len(exp)])) if x.kind == 'exit' else None
        if g != exp:
            ctx.violation(key, f'{x.kind} {x.code} got {g}, expected {exp}', files)
        ctx.seen(key)
    ctx.e.map(go, jobs)
    ctx.sample('linkage/v/tent-def-stat/split: every combination of declaration forms of a name in three translation units, over partitions into objects')


# ---------------------------------------------------------------- 4. sizes
def limits(ctx, ob):
    N = [1, 2, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001] if not ctx.thorough else [1, 2, 0xfff0, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10002, 0x1fffe, 0x20000]
    jobs = []
    for n in N:
        jobs.append((f'limit/data/{n:#x}', f'int v = 3; int *p[{n}] = {{ ' + ','.join(['&v'] * n) + f' }}; __declspec(dllexport) u64 run(u64 *o, u64 c){{ int bad = 0; for(int i = 0; i < {n}; i++) if(p[i] != &v) bad++; o[0] = bad; o[1] = *p[{n} - 1]; return 16; }}', [0, 3]))
        jobs.append((f'limit/tls/{n:#x}', f'int v = 3; __declspec(thread) int *p[{n}] = {{ ' + ','.join(['&v'] * n) + f' }}; __declspec(dllexport) u64 run(u64 *o, u64 c){{ int bad = 0; for(int i = 0; i < {n}; i++) if(p[i] != &v) bad++; o[0] = bad; o[1] = *p[{n} - 1]; return 16; }}', [0, 3]))
        m = min(n, 64)
        per = (n + m - 1) // m
        fn = [per] * (n // per) + ([n % per] if n % per else [])
        jobs.append((f'limit/text/{n:#x}', 'int g; ' + ' '.join(f'static void f{i}(void){{ {"g = 1;" * k} }}' for i, k in enumerate(fn)) + ' __declspec(dllexport) u64 run(u64 *o, u64 c){ ' + ''.join(f'f{i}(); ' for i in range(len(fn))) + ' o[0] = g; o[1] = 5; return 16; }', [1, 5]))
    for n in (1, 2, 100, 0x5554, 0x5555, 0x5556) if ctx.thorough else (1, 2, 100, 0x5556):
        jobs.append((f'limit/pdata/{n:#x}', ' '.join(f'static int f{i}(int a){{ return a + {i}; }}' for i in range(n)) + f' int (*t[{n}])(int) = {{ {", ".join(f"f{i}" for i in range(n))} }}; __declspec(dllexport) u64 run(u64 *o, u64 c){{ int bad = 0; for(int i = 0; i < {n}; i++) if(t[i](2) != i + 2) bad++; o[0] = bad; o[1] = 5; return 16; }}', [0, 5]))
    for n in (1, 7, 8, 9, 17, 18, 19, 100, 1000):
        nm = 'n' * n
        jobs.append((f'limit/name/{n}', f'int {nm} = 4; int {nm}b(int a){{ return a + {nm}; }} static int {nm}c = 7; __declspec(dllexport) int {nm}d(void){{ return 9; }} __declspec(dllexport) u64 run(u64 *o, u64 c){{ o[0] = {nm}b(3); o[1] = {nm}c + {nm}d(); return 16; }}', [7, 16]))

    def go(j):
        key, src, exp = j
        src = 'typedef unsigned long long u64; ' + src
        for opt in ('/no_debug', '') if 'name' in key or key.endswith(('/0x1', '/0x2', '/0x10000', '/0x5556')) else ('/no_debug',):
            r = ctx.e.compile({'a.c': src}, f'a.c /c /quiet {opt}', timeout=60)
            ctx.count()
            o = r.files.get('a.obj')
            k = key + ('/debug' if not opt else '')
            if not r.ok or not o:
                ctx.violation(k, f'{r.kind} {r.code} {r.out[-300:]}', {'a.c': src})
                continue
            e = coff(o)
            if e:
                ctx.violation(k, 'malformed object: ' + '; '.join(e[:3]), {'a.c': src})
                continue
            img, out = ob.link([o], tls='tls' in key)
            if not img or out.strip():
                ctx.violation(k, f'lld-link: {out[:300]}', {'a.c': src})
                continue
            x = ctx.e.run_dll(img, tls_index=1)
            g = list(st.unpack('<2Q', x.buf[:16])) if x.kind == 'exit' else None
            if g != exp:
                ctx.violation(k, f'{x.kind} {x.code} got {g}, expected {exp}', {'a.c': src})
            ctx.seen(k)
    ctx.e.map(go, jobs)
    ctx.sample('limit/data/0x10000: relocation counts around the 16-bit limit of each section; symbol name lengths')


# ---------------------------------------------------------------- 5. run-time alignment through an object
def aligns(ctx, ob):
    A = [1, 2, 4, 8, 16, 32, 64, 256, 1024, 4096]
    sto = [s for s in c13.STO if s != 'auto']
    jobs = [((s, t, a), pad) for s in sto for t in ('u8', 'u64') for a in A for pad in ('u8 p0 = 1; static u8 p1; __declspec(thread) u8 p2 = 3; u8 p3;', 'u8 p0[17] = {1}; static u8 p1[33]; __declspec(thread) u8 p2[65] = {3}; u8 p3[5]; const char *q = "a";')]
    small = {'u8': 1, 'u64': 8}

    def go(j):
        (s, t, a), pad = j
        al = max(a, small[t])
        m = dict(A=f'_Alignas({al})' if a >= small[t] else '', t=t, n='v', v=40, a=al)
        d, b = c13.STO[s]
        src = c13.H + pad + '\n' + d.format(**m) + f'\n__declspec(dllexport) u64 run(u64 *p, u64 n){{ o_ = p; {b.format(**m)} p2; p1; p0; p3; O((u64)&v % {al}); O(v); return 16; }}'
        key = f'align/{s}.{t}.{a}/{len(pad)}'
        o = ob.compile({'a.c': src}, 'a.c /c /quiet /no_debug', key)
        if not o:
            return
        img, out = ob.link([o], tls=True)
        if not img or out.strip():
            ctx.violation(key, f'lld-link: {out[:300]}', {'a.c': src})
            return
        x = ctx.e.run_dll(img, tls_index=1)
        g = list(st.unpack('<2Q', x.buf[:16])) if x.kind == 'exit' else None
        if g != [0, 0 if s == 'bss' else 40]:
            ctx.violation(key, f'{x.kind} {x.code} got {g}', {'a.c': src})
        ctx.seen(key)
    ctx.e.map(go, jobs)


# ---------------------------------------------------------------- 6. program corpora of the direct checks through objects
class ObjDiff(Diff):
    def __init__(self, ctx, ob, split=1, **kw):
        super().__init__(ctx, args='a.c /c /quiet /out a.obj', **kw)
        self.ob = ob

    def hlc(self, items, extra=''):
        src, tot, r = super().hlc(items, extra)
        o = r.files.get('a.obj')
        if r.ok and o:
            e = coff(o)
            if e:
                r.code = 77
                r.out += ('malformed object: ' + '; '.join(e[:4])).encode()
                return src, tot, r
            img, out = self.ob.link([o])
            if img and not out.strip():
                r.files['a.dll'] = img
            else:
                r.code = 78
                r.out += b'lld-link: ' + out[:600].encode()
        return src, tot, r


def corpora(ctx, ob):
    th = ctx.thorough
    d = ObjDiff(ctx, ob, head=HEAD + tables(), batch=60)
    pre = 'corpus/'

    def tag(it):
        for i in it:
            i.key = pre + i.key
        return it
    base = []
    for l, r in ([('glob', f) for f in FORMS] + [(f, 'glob') for f in FORMS if f != 'glob']) if th else [('glob', 'glob'), ('glob', 'arr'), ('mem', 'glob')]:
        base += [(k, dc, b) for k, dc, b, t in binary_items([l], [r])]
    base += list(compound_items(('glob', 'arr', 'mem')))
    base += list(unary_items(FORMS))
    d.run(tag(localize(base)))
    lit = []
    for k, (key, dc, b) in enumerate(lit_items(('glob', 'arr', 'pmem', 'call') if th else ('glob', 'call'))):
        for nm in ('g_a', 'S_a', 'id_a'):
            dc = re.sub(rf'\b{nm}\b', f'{nm}{k}', dc)
            b = re.sub(rf'\b{nm}\b', f'{nm}{k}', b)
        lit.append((key, dc, b, 1))
    ObjDiff(ctx, ob, head=HEAD + tables(), batch=12).run(tag(uniq(lit)))
    d3 = ObjDiff(ctx, ob, head=HEAD + c03.PRE, batch=60)
    for k in range(1, 5 if th else 4):
        d3.run(tag(uniq(stmt_items(k))))
    ObjDiff(ctx, ob, head=HEAD + c03.PRE, batch=8).run(tag(uniq(c03.switch_items([0, 1, 2, 5, 16, 17, 64, 128, 300]))))
    its = tag(uniq(list(c06.items(th))))
    ObjDiff(ctx, ob, batch=24, head=HEAD + c06.PRE, ref_opt='-O1').run(its if th else its[::4])
    its = tag(uniq([i for i in c07.items(False) if not i[0].startswith('over/') and i[0] not in ('misc/12', 'misc/13')]))  # C07's known findings
    ObjDiff(ctx, ob, batch=60, head=HEAD + c07.PRE).run(its if th else its[::4])


def body(ctx):
    ob = Obj(ctx)
    features(ctx, ob)
    cross(ctx, ob)
    linkage(ctx, ob)
    limits(ctx, ob)
    aligns(ctx, ob)
    corpora(ctx, ob)
    ctx.cov['rule'] = 'every subset of image features through one object; every assignment of definitions of ten symbol kinds to two objects x tool combinations; every combination of declaration forms of one name in three translation units x partitions into objects; relocation counts around 0xffff; alignments; program corpora. Each object is read strictly, linked by lld-link without a warning, and run.'
    ctx.assumptions += ['lld-link and clang-18 stand in for the Microsoft linker and compiler', 'the loader of engine/hx.c stands in for the Windows loader']


if __name__ == '__main__':
    main('C14', 'exploration', body)
