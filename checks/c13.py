from common import *
import itertools, struct as st, subprocess, tempfile
import pe

H = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef signed long long s64;
static u64 *o_;
#define O(x) (*o_++ = (u64)(x))
'''


class Feat:
    """file-scope declarations, body (writes observations with O), expected observations, exports (name -> value returned), imports"""
    def __init__(self, name, decl, body, exp, exports=None, imports=(), dll=False):
        self.name, self.decl, self.body, self.exp, self.exports, self.imports = name, decl, body, exp, exports or {}, set(imports)


def feats():
    F = []
    F.append(Feat('dptr', '''int d0 = 5; int *pd = &d0; int da[5] = {10, 11, 12, 13, 14}; int *pe_ = &da[3]; u8 *pb = (u8 *)&da[1] + 4; int db[6]; int *pf = db + 5; int *pz = da + 5; s64 *self = (s64 *)&self;
struct DN { struct DN *next; u16 v; } dn1, dn2 = { &dn1, 2 }, dn1 = { &dn2, 1 }; int *dov[4] = { &d0, &d0, &da[1], [0] = 0, [1] = &da[2], [3] = &d0, [3] = &da[4] }; union { int *p; u64 v; } dou = { .p = &d0, .v = 8 };''',
                  'db[5] = 9; O(*pd); O(*pe_); O(*pb); O(*pf); O(pz - da); O((s64 **)self == (s64 **)&self); O(dn1.next->v); O(dn2.next->next->v); *pd = 6; O(d0); O(dov[0] == 0); O(*dov[1] + *dov[2] + *dov[3]); O(dou.v);',
                  [5, 13, 12, 9, 5, 1, 2, 2, 6, 1, 37, 8]))
    F.append(Feat('fptr', '''static int f1(int a){ return a + 1; } static int f2(int a){ return a * 2; } extern int f3(int a);
int (*ft[4])(int) = { f1, f2, f3, f1 }; struct FS { char c; int (*f)(int); } fs = { 3, f2 }; int f3(int a){ return a - 3; }
static int sw(int x){ switch(x){ case 0: return 7; case 1: return 9; case 2: return 12; case 3: return 100; case 4: return -4; case 5: return 0; case 1000: return 8; default: return 77; } }''',
                  'O(ft[0](10)); O(ft[1](10)); O(ft[2](10)); O(ft[3] == f1); O(fs.f(21)); for(int i = 0; i < 7; i++) O(sw(i)); O(sw(1000));',
                  [11, 20, 7, 1, 42, 7, 9, 12, 100, -4, 0, 77, 8]))
    F.append(Feat('sptr', r'''struct SP { const char *s; int n; const u16 *w; } sp[] = { { "one", 3, L"uno" }, { "two\0three", 9, L"" }, { "", 0, L"\x1234\xffff" } };
const char *sarr[] = { "one", "a" "b", &"xyz"[1], "two", "two\0three" }; const u16 *wsame = L"one"; const u32 *usame = U"one"; char sin[] = "inside";''',
                  'O(sp[0].s[2]); O(sp[1].s[4]); O(sp[2].s[0]); O(sp[0].w[2]); O(sp[1].w[0]); O(sp[2].w[1]); O(sarr[0][3]); O(sarr[1][1]); O(sarr[1][2]); O(sarr[2][0]); O(sarr[3][3]); O(sarr[4][8]); O(wsame[1]); O(wsame[3]); O(usame[2]); O(usame[3]); O(sin[5]); O("local"[3]); O(L"local"[4]); O(*(u32 *)U"q");',
                  [101, 116, 0, 111, 0, 0xffff, 0, 98, 0, 121, 0, 101, 110, 0, 101, 0, 101, 97, 108, 113]))
    n = 1100
    F.append(Feat('pages', f'''#pragma pack(push, 1)
struct PP {{ u8 c; void *p; }}; struct PP pp[{n}] = {{ ''' + ', '.join(f'{{ {i & 255}, &pp[{(i * 7) % n}] }}' for i in range(n)) + ''' };
#pragma pack(pop)
''', f'int bad = 0; for(int i = 0; i < {n}; i++) if(pp[i].c != (i & 255) || pp[i].p != (void *)&pp[(i * 7) % {n}]) bad++; O(bad); O(sizeof pp);', [0, n * 9]))
    F.append(Feat('packptr', '''#pragma pack(push, 1)
struct P1 { char c; int *p; short s; }; char pad0 = 1; struct P1 p1 = { 4, &p1v, 9 }, p1b[3] = { { 1, 0, 2 }, { 3, &p1v, 4 }, { 5, (int *)&p1b[2].s, 6 } }; int p1v = 33;
#pragma pack(pop)
''', 'O(p1.c); O(*p1.p); O(p1.s); O(p1b[0].p == 0); O(*p1b[1].p); O(*(short *)p1b[2].p); O(p1b[2].s);', [4, 33, 9, 1, 33, 6, 6]))
    F.append(Feat('tls', '''__declspec(thread) int t0 = 4; __declspec(thread) char t1 = 1; __declspec(thread) s64 tz; __declspec(thread) char *ts = "tls"; __declspec(thread) int ta[3] = { 1, 2, 3 }; static __declspec(thread) u8 t9 = 200;
static int *tf(void){ static __declspec(thread) int loc = 50; loc++; return &loc; }''',
                  'O(t0); O(t1); O(tz); O(ts[1]); O(ta[2]); O(t9); t0 = 7; ta[0] += 5; O(t0 + ta[0]); O(*tf()); O(*tf()); u8 *ep = &t9; *ep = 3; O(t9); O(&t0 != (int *)&t1);',
                  [4, 1, 0, 108, 3, 200, 13, 51, 52, 3, 1]))
    F.append(Feat('bss', '''int b0; char b1; s64 b2[1000]; static short b3; struct B4 { char x[4097]; } b4; u8 b5[1 << 20]; u8 b6; int *b7 = &b0; u8 *b8 = b5 + (1 << 20) - 1; struct {} b9;''',
                  '''s64 nz = b0 | b1 | b3 | b6; for(int i = 0; i < 1000; i++) nz |= b2[i]; for(int i = 0; i < 4097; i++) nz |= b4.x[i]; for(int i = 0; i < (1 << 20); i++) nz |= b5[i]; O(nz);
b0 = 1; b1 = 2; b2[999] = 3; b3 = 4; b4.x[4096] = 5; *b8 = 6; b6 = 7; O(*b7); O(b1); O(b2[999]); O(b3); O(b4.x[4096]); O(b5[(1 << 20) - 1]); O(b6);''',
                  [0, 1, 2, 3, 4, 5, 6, 7]))
    F.append(Feat('imp', '''__declspec(dllimport) u64 GetTickCount64(void); __declspec(dllimport) u32 GetLastError(void); __declspec(dllimport) void SetLastError(u32); __declspec(dllimport) u64 strlen(const char *);
u32 (*ip)(void) = GetLastError; struct IS { char c; void (*set)(u32); u32 (*get)(void); } is = { 1, SetLastError, GetLastError };''',
                  'SetLastError(77); O(GetLastError()); O(ip()); is.set(12); O(is.get()); O(GetLastError()); u64 a = GetTickCount64(); u64 b = GetTickCount64(); O(b > a); O(strlen("four"));  u32 (*lp)(void) = GetLastError; O(lp()); O(is.get == ip);',
                  [77, 77, 12, 12, 1, 4, 12, 1], imports=[('kernel32.dll', 'GetTickCount64'), ('kernel32.dll', 'GetLastError'), ('kernel32.dll', 'SetLastError'), ('ucrt', 'strlen')]))
    ex = {'exp_b': 2, 'exp_a': 1, 'Exp_c': 3, 'exp': 4, 'exp_ab': 5, '_x': 6, 'Z': 7, 'a9': 8, 'a1': 9, 'expz': 10}
    F.append(Feat('exp', ' '.join(f'__declspec(dllexport) int {k}(void){{ return {v}; }}' for k, v in ex.items()) + ' int (*xp)(void) = exp_ab;', 'O(exp_b()); O(xp());', [2, 5], exports=ex))
    F.append(Feat('flt', 'float fl0 = 1.5f; double fd[2] = { 0.1, -3e300 }; static float ff(float a){ return a * 2.25f + 0.5f; } static double fdd(double a){ return a / 3.0 - 1e-5; }',
                  'union { float f; u32 u; } a; union { double d; u64 u; } b; a.f = ff(fl0); O(a.u); b.d = fdd(fd[1]); O(b.u); b.d = fd[0] + 2.25; O(b.u); a.f = 3.0f; O(a.u); b.d = 2.25; O(b.u);',
                  [st.unpack('<I', st.pack('<f', 3.875))[0], st.unpack('<Q', st.pack('<d', -3e300 / 3.0 - 1e-5))[0], st.unpack('<Q', st.pack('<d', 0.1 + 2.25))[0], 0x40400000, st.unpack('<Q', st.pack('<d', 2.25))[0]]))
    return F


OPTS = ['', '/no_dynamic_base', '/image_base 0x23450000', '/no_debug']
BASES = [0, 0x20000000, 0x7fff0000, 0x600000000000]


def program(fs, kind):
    s = H + '\n'.join(f.decl for f in fs) + '\n'
    s += '\n'.join(f'static void chk{i}(void){{ {f.body} }}' for i, f in enumerate(fs))
    calls = ''.join(f'chk{i}(); ' for i in range(len(fs)))
    if kind == 'dll':
        return s + f'__declspec(dllexport) u64 run(u64 *p, u64 n){{ o_ = p; {calls} return (u64)o_ - (u64)p; }}'
    exp = [v & (1 << 64) - 1 for f in fs for v in f.exp]
    return s + f'static u64 ob[512]; static u64 ex[] = {{ 1, ' + ', '.join(f'{v}ull' for v in exp) + f' }}; int _start(void){{ o_ = ob; {calls} if(o_ - ob != {len(exp)}) return 250; for(int i = 0; i < {len(exp)}; i++) if(ob[i] != ex[i + 1]) return i + 1; return 0; }}'


def relocated(p, base):
    """section contents of p loaded at base (addresses adjusted as the loader does)"""
    out = {}
    img = {}
    for s in p.secs:
        b = bytearray(p.at(s['va'], s['vs'])) if not s['ch'] & 0x80 else bytearray(0)
        img[s['va']] = b
    d = base - p.base
    for r in p.rel:
        for s in p.secs:
            if s['va'] <= r < s['va'] + len(img[s['va']]):
                o = r - s['va']
                v = st.unpack_from('<Q', img[s['va']], o)[0] + d & (1 << 64) - 1
                st.pack_into('<Q', img[s['va']], o, v)
    r, n = p.dirs[6]
    if r:  # debug data: time stamps and the guid
        q = p.sec(r, n)
        for s in p.secs:
            o = r - s['va']
            if 0 <= o < len(img[s['va']]):
                for i in range(n // 28):
                    sz, rva = st.unpack_from('<II', img[s['va']], o + 28 * i + 16)
                    for x in p.secs:
                        if x['va'] <= rva < x['va'] + len(img[x['va']]):
                            img[x['va']][rva - x['va']:rva - x['va'] + sz] = b'\0' * sz
                img[s['va']][o:o + n] = b'\0' * n
    return [(s['name'], s['va'], s['vs'], s['ch'], bytes(img[s['va']])) for s in p.secs]


def one(ctx, fam, sub, src, kind, opt, exp, exports, imports, bases, libs=True, tlsidx=(0, 5)):
    """compile, read strictly, load everywhere, compare"""
    key = f'{fam}/{sub}/{kind}/{opt.replace(" ", "_").strip("/") or "plain"}'
    args = f'a.c /quiet {"/dll /no_entry" if kind == "dll" else "/subsystem console"} /no_stdlib /out a.{kind} {opt} {"/l kernel32.lib /l ucrt.lib" if libs else ""}'
    r = ctx.e.compile({'a.c': src}, args)
    img = r.files.get('a.' + kind)
    rep = {'a.c': src, 'args.txt': args}
    if not r.ok or not img:
        ctx.violation(key, f'does not compile: {r.kind} {r.code} {r.out[-300:]}', rep)
        return None
    p, errs = pe.check(img)
    rep['image'] = img
    ctx.count()
    if errs:
        ctx.violation(key, 'malformed image: ' + '; '.join(errs[:4]), rep)
        if not p:
            return None
    if p.dll != (kind == 'dll'):
        ctx.violation(key, 'wrong image kind', rep)
    want = 0x23450000 if 'image_base' in opt else p.base
    if p.base != want:
        ctx.violation(key, f'image base {p.base:#x}', rep)
    if bool(p.dllchars & 0x40) == ('no_dynamic' in opt):
        ctx.violation(key, 'dynamic base flag', rep)
    if kind == 'dll' and set(p.exp) != set(exports) | {'run'} or kind == 'exe' and set(p.exp) != set(exports):
        ctx.violation(key, f'exports {sorted(p.exp)}', rep)
    got = {(d, n) for d, l in p.imp.items() for n in l}
    got = {('ucrt', n) if 'kernel32' not in d else (d, n) for d, n in got}
    if got != set(imports):
        ctx.violation(key, f'imports {sorted(got)}, expected {sorted(imports)}', rep)
    fixed = 'no_dynamic' in opt
    if kind == 'dll':
        for b in (bases[:1] if fixed else bases):
            for ti in (tlsidx if p.tlsdir else tlsidx[:1]):
                x = ctx.e.run_dll(img, base=b, tls_index=ti)
                ctx.count(loads=1)
                w = [v & (1 << 64) - 1 for v in exp]
                g = list(st.unpack(f'<{len(w)}Q', x.buf[:8 * len(w)])) if x.kind == 'exit' else None
                if x.ret != 8 * len(w) or g != w:
                    i = next((i for i in range(len(w)) if g and g[i] != w[i]), None)
                    ctx.violation(key, f'loaded at {b:#x} with TLS index {ti}: {x.kind} {x.code} returned {x.ret}, ' + (f'observation {i} is {g[i]:#x}, expected {w[i]:#x}' if i is not None else 'wrong amount of observations'), rep)
                    return p
            for n, v in exports.items():
                x = ctx.e.run_dll(img, export=n, base=b)
                ctx.count(loads=1)
                if x.kind != 'exit' or x.ret & 0xffffffff != v:
                    ctx.violation(key, f'export {n} returned {x.kind} {x.ret:#x}, expected {v}', rep)
                    return p
    else:
        for b in (bases[:1] if fixed else bases):
            x = ctx.e.run_exe(img, base=b)
            ctx.count(loads=1)
            if x.kind != 'exit' or x.code != 0:
                ctx.violation(key, f'loaded at {b:#x}: {x.kind} {x.code} (n: observation n - 1 is wrong)', rep)
                return p
    return p


def subsets(ctx):
    F = feats()
    jobs = []
    for k in range(1 << len(F)):
        fs = [f for i, f in enumerate(F) if k >> i & 1]
        for kind in ('dll', 'exe'):
            for oi, opt in enumerate(OPTS):
                if not ctx.thorough and bin(k).count('1') > 2 and bin(k).count('1') < len(F) - 1 and (k + oi + (kind == 'exe')) % 4:
                    continue   # quick: every subset with one option setting, all settings for subsets of up to 2 features and their complements
                jobs.append((k, fs, kind, opt))

    def go(j):
        k, fs, kind, opt = j
        exp = [v for f in fs for v in f.exp]
        exports = {n: v for f in fs for n, v in f.exports.items()}
        imports = set().union(*[f.imports for f in fs]) if fs else set()
        src = program(fs, kind)
        few = bin(k).count('1') <= 2 or ctx.thorough
        p = one(ctx, 'features', '+'.join(f.name for f in fs) or 'none', src, kind, opt, exp, exports, imports, BASES if few else [0, BASES[1 + k % 3]])
        ctx.seen(('f', k, kind, opt))
        # relocation oracle: the image linked for another base differs exactly where it is relocated
        if p and 'no_dynamic' not in opt and 'image_base' not in opt:
            args = f'a.c /quiet {"/dll /no_entry" if kind == "dll" else "/subsystem console"} /no_stdlib /out a.{kind} {opt} /l kernel32.lib /l ucrt.lib /image_base 0x7654320000'
            r = ctx.e.compile({'a.c': src}, args)
            img = r.files.get('a.' + kind)
            q, errs = pe.check(img) if img else (None, ['no image'])
            ctx.count()
            key = f'rebase/{"+".join(f.name for f in fs) or "none"}/{kind}/{opt.strip("/") or "plain"}'
            if errs or q.base != 0x7654320000:
                ctx.violation(key, f'linked at another base: {errs[:3]} base {q and hex(q.base)}', {'a.c': src, 'args.txt': args})
                return
            a, b = relocated(p, q.base), relocated(q, q.base)
            if a != b or sorted(p.rel) != sorted(q.rel):
                w = 'relocation tables differ' if sorted(p.rel) != sorted(q.rel) else 'sections differ'
                for x, y in zip(a, b):
                    if x[4] != y[4]:
                        i = next((i for i in range(min(len(x[4]), len(y[4]))) if x[4][i] != y[4][i]), -1)
                        w = f'{x[0]}+{i:#x} (rva {x[1] + i:#x}) depends on the image base but is not relocated'
                        break
                ctx.violation(key, w, {'a.c': src, 'args.txt': args})
    ctx.e.map(go, jobs)
    ctx.sample('features/' + '+'.join(f.name for f in F) + ': every subset of the features x {dll, exe} x options ' + ', '.join(repr(o) for o in OPTS))


SEC = {'text': lambda n: ('\n'.join(f'static int fn{i}(int a){{ return a + {i * 37}; }}' for i in range(n)) + f'int (*fnt[])(int) = {{ 0, {", ".join(f"fn{i}" for i in range(n))} }};',
                          f'{{ int bad = 0; for(int i = 0; i < {n}; i++) if(fnt[i + 1](5) != 5 + i * 37) bad++; O(bad); }}', [0]),
       'data': lambda n: (f'u8 dd[{n}] = {{ 1 }}; u8 ddn = 9;', f'{{ O(dd[0]); int s = 0; for(int i = 1; i < {n}; i++) s |= dd[i]; O(s); dd[{n} - 1] = 77; O(dd[{n} - 1]); O(ddn); }}', [1, 0, 77, 9]),
       'bss': lambda n: (f'u8 bb[{n}]; u8 bbn;', f'{{ int s = bbn; for(int i = 0; i < {n}; i++) s |= bb[i]; O(s); for(int i = 0; i < {n}; i++) bb[i] = 0xff; O(bbn); bbn = 5; O(bb[{n} - 1] + bbn); }}', [0, 0, 260]),
       'rdata': lambda n: ('', f'{{ const char *s = "{"".join(chr(97 + i * 7 % 26) for i in range(n))}"; int bad = 0; for(int i = 0; i < {n}; i++) if(s[i] != 97 + i * 7 % 26) bad++; O(bad); O(s[{n}]); double d = o_ != 0 ? 1.25 : 3.0; O(d * 4); }}', [0, 0, 5]),
       'tls': lambda n: (f'__declspec(thread) u8 tt[{n}] = {{ 3 }}; __declspec(thread) u8 ttn = 9;', f'{{ O(tt[0]); int s = 0; for(int i = 1; i < {n}; i++) s |= tt[i]; O(s); tt[{n} - 1] = 78; O(tt[{n} - 1]); O(ttn); }}', [3, 0, 78, 9]),
       'reloc': lambda n: (f'int rv = 6; int *rp[{n}] = {{ ' + ', '.join('&rv' if i % 3 else '(int *)&rp' for i in range(n)) + ' };', f'{{ int bad = 0; for(int i = 0; i < {n}; i++) if(rp[i] != (i % 3 ? &rv : (int *)&rp)) bad++; O(bad); }}', [0])}


def sizes(ctx):
    L = {'text': [1, 2, 3, 15, 16, 17, 31, 32, 33, 120, 128, 129, 300], 'data': [1, 7, 8, 9, 0x1fe, 0x1ff, 0x200, 0x201, 0xffe, 0xfff, 0x1000, 0x1001, 0x3000], 'bss': [1, 2, 8, 0x1ff, 0x200, 0x201, 0xffe, 0xfff, 0x1000, 0x1001, 0x10000],
         'rdata': [1, 2, 3, 0x1f0, 0x200, 0x210, 0xf00, 0xfc0, 0xfff, 0x1000, 0x1001], 'tls': [1, 7, 8, 9, 0x1ff, 0x200, 0x201, 0xffe, 0xfff, 0x1000, 0x1001, 0x2345], 'reloc': [1, 2, 3, 4, 5, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]}
    if ctx.thorough:
        L['text'] = list(range(1, 70)) + [120, 127, 128, 129, 255, 256, 257, 300, 600]
        for k, hi in (('data', 0x1010), ('bss', 0x1010), ('tls', 0x1010), ('rdata', 0x1010)):
            L[k] = sorted(set(L[k]) | set(range(1, 20)) | set(range(0x1e0, 0x220)) | set(range(0xe00, hi, 7)) | set(range(0xff0, hi)))
        L['reloc'] = list(range(1, 40)) + L['reloc'] + list(range(500, 530))
    jobs = []
    for k, l in L.items():
        for n in l:
            jobs.append(((k, n),))
    few = {k: [l[0]] + [n for n in l if n in (0x1ff, 0x200, 0x201, 0xfff, 0x1000, 0x1001, 33, 513, 512)] for k, l in L.items()}
    for a, b in itertools.combinations(L, 2):
        for x in few[a]:
            for y in few[b]:
                jobs.append(((a, x), (b, y)))

    def go(j):
        decl, body, exp = '', '', []
        for k, n in j:
            d, b, e = SEC[k](n)
            decl += d + '\n'
            body += b
            exp += e
        f = Feat('', decl, body, exp)
        for kind in (('dll', 'exe') if len(j) == 1 else ('dll',)):
            for opt in (('', '/no_debug') if len(j) == 1 or ctx.thorough else ('',)):
                one(ctx, 'size', '+'.join(f'{k}={n:#x}' for k, n in j), program([f], kind), kind, opt, exp, {}, set(), BASES[:2], libs=False, tlsidx=(1,))
        ctx.seen(('s', j))
    ctx.e.map(go, jobs)
    ctx.sample('size/data=0x1ff+tls=0x201: section sizes around the file and section alignments, one and two sections at a time')


STO = {'data': ('{A} {t} {n} = {v};', ''), 'bss': ('{A} {t} {n};', ''), 'tls': ('{A} __declspec(thread) {t} {n} = {v};', ''), 'ltls': ('', '{A} static __declspec(thread) {t} {n} = {v};'),
       'local': ('', '{A} static {t} {n} = {v};'), 'member': ('struct M{n} {{ char c; {A} {t} m; }} {n}_ = {{ 1, {v} }};\n#define {n} {n}_.m\n', ''), 'auto': ('', '{A} {t} {n} = {v};'), 'dspec': ('__declspec(align({a})) {t} {n} = {v};', '')}


def aligns(ctx):
    """objects of every alignment and storage, in every order of three, at run-time aligned addresses"""
    A = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096]
    jobs = []
    pads = [('u8 p0 = 1;', 'data'), ('u8 p0;', 'bss'), ('__declspec(thread) u8 p0 = 1;', 'tls'), ('', 'none')]
    for sto in STO:
        for t in ('u8', 'u32', 'u64') if ctx.thorough else ('u8', 'u64'):
            for a in A:
                if sto == 'auto' and a > 16:
                    continue
                for pd, pn in pads:
                    jobs.append(([(sto, t, a)], pd, pn))
    for c in itertools.permutations([('u8', 1), ('u64', 64), ('u32', 2048)]):
        for sto in itertools.product(STO, repeat=3) if ctx.thorough else [(s,) * 3 for s in STO] + list(itertools.permutations(['data', 'bss', 'tls'])) + list(itertools.permutations(['tls', 'ltls', 'member'])):
            jobs.append(([(s, t, a) for s, (t, a) in zip(sto, c) if s != 'auto' or a <= 16], 'u8 p0 = 1; __declspec(thread) char p1 = 2; char p2;', 'all'))
    small = {'u8': 1, 'u32': 4, 'u64': 8}

    def go(j):
        objs, pad, pn = j
        decl, body, exp = pad + '\n', '', []
        for i, (s, t, a) in enumerate(objs):
            m = dict(A=f'_Alignas({a})' if a >= small[t] else '', t=t, n=f'v{i}', v=i + 40, a=max(a, small[t]))
            d, b = STO[s]
            decl += d.format(**m) + '\n'
            body += b.format(**m) + f' O((u64)&v{i} % {max(a, small[t])}); O(v{i}); v{i} += 1; '
            exp += [0, 0 if s == 'bss' else i + 40]
        for i, (s, t, a) in enumerate(objs):
            body += f'O(v{i}); '
            exp += [(0 if s == 'bss' else i + 40) + 1]
        if pn in ('data', 'bss', 'tls'):
            body += 'O(p0);'
            exp += [0 if pn == 'bss' else 1]
        f = Feat('', decl, body, exp)
        one(ctx, 'align', '+'.join(f'{s}.{t}.{a}' for s, t, a in objs) + '.' + pn, program([f], 'dll'), 'dll', '', exp, {}, set(), BASES[:2], libs=False, tlsidx=(0,))
        ctx.seen(('a', str(j)))
    ctx.e.map(go, jobs)
    for a in A:
        if a >= 32:
            # over-aligned locals: at every stack position modulo the alignment
            src = H + f'static u64 bad; static int use(void *p){{ bad |= (u64)p % {a}; return 1; }} static int rec(int d){{ _Alignas({a}) u32 v = d; use(&v); return d ? rec(d - 1) + v : 0; }} static int rec2(int d){{ u64 pad[3]; pad[d % 3] = d; _Alignas({a}) u8 v = 1; use(&v); return d ? rec(3) + rec2(d - 1) + v + (int)pad[d % 3] : 0; }} __declspec(dllexport) u64 run(u64 *p, u64 n){{ p[0] = rec(40) + rec2(40); p[1] = bad; return 16; }}'
            r = ctx.e.compile({'a.c': src}, 'a.c /quiet /dll /no_entry /no_stdlib /out a.dll')
            ctx.count()
            img = r.files.get('a.dll')
            x = ctx.e.run_dll(img) if img else None
            if not x or x.kind != 'exit' or st.unpack('<2Q', x.buf[:16]) != (1920, 0):
                ctx.violation(f'align/auto-over16/{a}', f'a local variable declared _Alignas({a}) is not aligned: {x and (x.kind, st.unpack("<2Q", x.buf[:16]))}', {'a.c': src})
    ctx.sample('align/data.u8.4096.bss: run-time address of objects of every alignment and storage class')


def exports(ctx):
    """export names in every declaration order: the name table is sorted by bytes, names lead to their functions; imports from several libraries"""
    sets = [['a', 'b', 'c'], ['ab', 'a', 'abc'], ['A', 'a', '_'], ['Z', 'a', 'b_'], ['x1', 'x10', 'x2', 'X'], ['f_', 'f', 'fA', 'f0'], ['aa', 'aB', 'ab', 'a_b']]
    if ctx.thorough:
        sets += [['b', 'B', 'ba', 'bA', 'b0'], ['q', 'qq', 'qqq', 'Q', 'qQ']]
    jobs = [(l, p, opt) for l in sets for p in itertools.permutations(l) for opt in ('', '/no_debug')]

    def go(j):
        l, p, opt = j
        m = {n: 100 + l.index(n) for n in p}
        f = Feat('', ' '.join(f'__declspec(dllexport) int {n}(void){{ return {v}; }}' for n, v in m.items()), '', [])
        for kind in ('dll', 'exe'):
            one(ctx, 'exports', '.'.join(p), program([f], kind), kind, opt, [], m, set(), BASES[:1], libs=False, tlsidx=(0,))
        ctx.seen(('e', p, opt))
    ctx.e.map(go, jobs)
    # import libraries made by an independent tool: every assignment of four functions to three dlls
    with tempfile.TemporaryDirectory() as d:
        fns = ['iw', 'ix', 'iy', 'iz']
        libs = {}
        jobs = []
        for asg in itertools.product(range(3), repeat=4) if ctx.thorough else [a for a in itertools.product(range(3), repeat=4) if a[0] == 0]:
            for used in range(1, 16):
                if ctx.thorough or used in (1, 2, 5, 10, 12, 15, 7):
                    jobs.append((asg, used))

        def mk(dll, names):
            k = (dll, tuple(names))
            if k not in libs:
                b = os.path.join(d, f'{dll}_{"".join(names)}')
                open(b + '.def', 'w').write(f'LIBRARY {dll}.dll\nEXPORTS\n' + ''.join(n + '\n' for n in names))
                subprocess.run(['lld-link-18', '/lib', f'/def:{b}.def', '/machine:x64', f'/out:{b}.lib'], check=True)
                libs[k] = open(b + '.lib', 'rb').read()
            return libs[k]
        for asg, used in jobs:
            for k in range(3):
                mk(f'dll{k}', [n for i, n in enumerate(fns) if asg[i] == k] + [f'extra{k}'])

        def go2(j):
            asg, used = j
            files = {f'dll{k}.lib': mk(f'dll{k}', [n for i, n in enumerate(fns) if asg[i] == k] + [f'extra{k}']) for k in range(3)}
            src = ''.join(f'__declspec(dllimport) int {n}(int); ' for n in fns) + '__declspec(dllexport) int run(int a){ return ' + ' + '.join(f'{n}(a)' for i, n in enumerate(fns) if used >> i & 1) + '; }' + f'int (*p)(int) = {fns[used.bit_length() - 1]}; __declspec(dllexport) void *q(void){{ return p; }}'
            files['a.c'] = src
            args = 'a.c /quiet /dll /no_entry /no_stdlib /out a.dll /l dll0.lib /l dll1.lib /l dll2.lib'
            r = ctx.e.compile(files, args)
            key = f'imports/{"".join(map(str, asg))}/{used}'
            img = r.files.get('a.dll')
            p, errs = pe.check(img) if img else (None, [f'no image {r.out[-200:]}'])
            ctx.count()
            want = {(f'dll{asg[i]}.dll', n) for i, n in enumerate(fns) if used >> i & 1}
            got = {(a, n) for a, l in p.imp.items() for n in l} if p else None
            if errs or want != got:
                ctx.violation(key, f'{errs[:3]} imports {got}, expected {want}', {'a.c': src, 'args.txt': args})
            ctx.seen(('i', j))
        ctx.e.map(go2, jobs)
    ctx.sample('imports/0121/7: every assignment of four functions to three import libraries, with subsets of them used')


def second_reader(ctx):
    """the same images through an independent reader"""
    F = feats()
    with tempfile.TemporaryDirectory() as d:
        def go(j):
            k, kind, opt = j
            fs = [f for i, f in enumerate(F) if k >> i & 1]
            r = ctx.e.compile({'a.c': program(fs, kind)}, f'a.c /quiet {"/dll /no_entry" if kind == "dll" else "/subsystem console"} /no_stdlib /out a.{kind} {opt} /l kernel32.lib /l ucrt.lib')
            img = r.files.get('a.' + kind)
            if not img:
                return
            p, _ = pe.check(img)
            f = os.path.join(d, f'{k}{kind}{OPTS.index(opt)}')
            open(f, 'wb').write(img)
            x = hx.tool(['llvm-readobj-18', '--file-headers', '--sections', '--coff-imports', '--coff-exports', '--coff-basereloc', '--coff-tls-directory', '--coff-debug-directory', f])
            os.unlink(f)
            ctx.count()
            o, err = x.stdout.decode('latin1'), x.stderr.decode('latin1')
            n = (o.count('Type: DIR64'), o.count('\n  Symbol: '), o.count('\nExport {'))
            m = (len(p.rel), len(p.iat), len(p.exp)) if p else None
            if x.returncode or err.strip() or n != m:
                ctx.violation(f'readobj/{k}/{kind}/{opt.strip("/") or "plain"}', f'{err[:300]} (relocations, imports, exports): llvm-readobj {n}, our reader {m}', {'a.c': program(fs, kind)})
        N = len(F)
        ctx.e.map(go, [(k, kind, opt) for k in (range(1 << N) if ctx.thorough else [1 << i for i in range(N)] + [(1 << N) - 1 - (1 << i) for i in range(N)] + [0, (1 << N) - 1]) for kind in ('dll', 'exe') for opt in OPTS])


def body(ctx):
    ctx.cov['rule'] = 'every combination of image features, option settings, section sizes, alignments and export/import sets within the stated alphabets; each image read strictly, loaded at several bases and TLS indices, and executed'
    ctx.assumptions += ['the loader of engine/hx.c stands in for the Windows loader']
    subsets(ctx)
    sizes(ctx)
    aligns(ctx)
    exports(ctx)
    second_reader(ctx)


if __name__ == '__main__':
    main('C13', 'exploration', body, need_ref=False)
