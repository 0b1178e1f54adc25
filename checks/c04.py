from common import *
import itertools

SC = ['_Bool', 's8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'float', 'double', 'ptr']
SZS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 40]
AG = [f'S{n}' for n in SZS] + ['SF', 'SFF', 'SD', 'SDD', 'SI', 'SLL', 'UF', 'UD', 'SFI', 'SCS']
ALL = SC + AG
TYPES_SRC = ''.join(f'typedef struct {{ u8 b[{n}]; }} S{n};\n' for n in SZS) + '''typedef void *ptr;
typedef struct { float a; } SF; typedef struct { float a, b; } SFF; typedef struct { double a; } SD; typedef struct { double a, b; } SDD; typedef struct { s32 a; } SI; typedef struct { s64 a, b; } SLL;
typedef union { float f; u32 u; } UF; typedef union { double d; u64 u; } UD; typedef struct { float f; s32 i; } SFI; typedef struct { s8 a; s16 b; } SCS;
'''
PRE = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
''' + TYPES_SRC + '''extern u64 *o_;
#define O(x) (*o_++ = (u64)(x))
static u64 hb(void *p, u64 n){ u8 *b = p; u64 h = 1469598103934665603ull; for(u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static void fl(void *p, u64 n, u64 s){ u8 *b = p; for(u64 i = 0; i < n; i++) b[i] = (u8)(s * 37 + i * 11 + 129); }
#define AL { struct { u64 x[2]; } al; al.x[0] = 1; O((u64)&al.x[0] & 7); }
'''
VAR = {'s32', 'u32', 's64', 'u64', 'double', 'ptr'}


def fill(t, v, s):
    if t in ('float', 'double'):
        return f'{v} = ({t})({s} * 3 + 1) * 0.5f - 20;'
    if t == '_Bool':
        return f'{v} = {s} & 1;'
    if t in ('SF', 'SFF', 'SD', 'SDD', 'SFI'):
        return f'fl(&{v}, sizeof({v}), {s});'
    return f'fl(&{v}, sizeof({v}), {s});'


class Sig:
    def __init__(self, ret, params, va=(), kind='direct', dirty=False):
        self.ret, self.params, self.va, self.kind, self.dirty = ret, tuple(params), tuple(va), kind, dirty

    live = (0, 0)
    nest = ()

    def key(self):
        return (f'live{self.live[0]}.{self.live[1]}.{"".join(map(str, self.nest))}:' if self.live != (0, 0) or self.nest else '') + f'{self.ret}({",".join(self.params)}{"|" + ",".join(self.va) if self.va else ""}){self.kind}{"/dirty" if self.dirty else ""}'

    def nobs(self):
        return 2 * (len(self.params) + len(self.va)) + 8

    def proto(self, n):
        ps = ', '.join(f'{t} a{i}' for i, t in enumerate(self.params)) + (', ...' if self.va else '')
        return f'{self.ret} f{n}({ps or "void"})'

    def callee(self, n):
        b = ''
        for i, t in enumerate(self.params):
            b += f'O(hb(&a{i}, sizeof(a{i}))); '
        if self.va:
            b += f'va_list va; va_start(va, a{len(self.params) - 1}); '
            for i, t in enumerate(self.va):
                b += f'{{ {t} v; v = va_arg(va, {t}); O(hb(&v, sizeof(v))); }} '
        b += 'AL '
        for i, t in enumerate(self.params):
            b += fill(t, f'a{i}', 200 + i) + ' '
        b += 'CLOB '
        if self.ret != 'void':
            b += f'{self.ret} r; {fill(self.ret, "r", 77 + n % 50)} return r;'
        if self.dirty:
            # upper bits of small results are undefined: the callee leaves garbage there
            return f'u64 f{n}(void){{ {self.ret} r; {fill(self.ret, "r", 78)} AL u64 x = (u64)0xdeadbeefcafebabeull; *({self.ret} *)&x = r; return x; }}\n'
        return self.proto(n) + '{ ' + b + ' }\n'

    def caller(self, n):
        b = ''
        allp = list(self.params) + list(self.va)
        for i, t in enumerate(allp):
            b += f'{t} x{i}; {fill(t, f"x{i}", 3 + i * 5)} '
        args = ', '.join(f'x{i}' for i in range(len(allp)))
        call = f'f{n}({args})'
        pre = self.proto(n) + ';\n'
        if self.kind == 'ptr':
            b += f'{self.ret} (*fp)({", ".join(self.params) + (", ..." if self.va else "") or "void"}) = f{n}; '
            call = f'fp({args})'
        if self.kind == 'arr':
            b += f'{self.ret} (*fp[2])({", ".join(self.params) + (", ..." if self.va else "") or "void"}); fp[1] = f{n}; s32 ix = 1; '
            call = f'(*fp[ix])({args})'
        if self.dirty and self.params:
            # upper bits of small arguments are undefined
            call = f'((void (*)({", ".join("u64" for _ in self.params)}))f{n})({", ".join(f"dirty(&x{i}, sizeof(x{i}))" for i in range(len(self.params)))})'
        if self.nest:
            call = f'f{n}(' + ', '.join(f'id_{t}({i}, x{i})' if i in self.nest else f'x{i}' for i, t in enumerate(allp)) + ')'
        if self.live != (0, 0):
            # temporaries that are live across the call (and across the calls in its arguments)
            e = f'{call}.b[3]' if self.ret in AG else call
            e = f'(double)({e})'
            for i in range(self.live[1]):
                e = f'(q{i} * {i + 1}.5 + {e})' if i % 2 else f'({e} + q{i} * {i + 1}.5)' if i % 4 else f'(q{i} * {i + 1}.5 - {e})'
            e = f'(s64)({e} * 4)'
            for i in range(self.live[0]):
                e = f'(p{i} * {2 * i + 3} ^ {e})'
            return pre + f'void c{n}(void){{ {b} volatile s64 k0 = 11; s64 ' + ', '.join(f'p{i} = k0 + {i * i}' for i in range(8)) + '; double ' + ', '.join(f'q{i} = (double)k0 * {i}.25' for i in range(8)) + f'; s64 e_ = {e}; O(e_); ' + ''.join(f'O(hb(&x{i}, sizeof(x{i}))); ' for i in range(len(allp))) + '}\n'
        b += 'volatile u64 k0 = 11; u64 k1 = k0 * 3, k2 = k0 * 5, k3 = k0 * 7, k4 = k0 + 1, k5 = k0 + 2, k6 = k0 - 1, k7 = k0 * k0; double d0 = (double)k0 * 1.5, d1 = (double)k0 + 0.25; '
        if self.ret == 'void':
            b += call + '; '
        else:
            b += f'{self.ret} r; r = {call}; O(hb(&r, sizeof(r))); '
            if self.ret in SC and self.ret != 'ptr':
                b += f'{{ s64 tt = (s64)({call} + 0); O(tt); }} '
            elif self.ret in AG and self.ret[1:].isdigit():
                b += f'{{ u8 tt = {call}.b[0]; O(tt); }} '
        b += 'O(k1 + k2 * 3 + k3 * 5 + k4 * 7 + k5 * 9 + k6 * 11 + k7 * 13); O((s64)(d0 * 8 + d1 * 16)); '
        for i, t in enumerate(allp):
            b += f'O(hb(&x{i}, sizeof(x{i}))); '
        return pre + f'void c{n}(void){{ {b} }}\n'

# every callee observation happens once per call; calls may happen twice
def nobs(s):
    return 3 * (len(s.params) + len(s.va)) + 12


def sigs(thorough):
    # every type alone, as parameter and as result
    for r in ['void'] + ALL:
        yield Sig(r, [])
        for p in ALL:
            yield Sig(r, [p])
    # every type at every position, with integer / floating / mixed company
    for p in ALL:
        for pos in range(0, 7):
            for comp in ('s32', 'double', 'S3', 'S8'):
                for ret in ('void', 'u64', 'S12', 'float') if thorough else ('u64', 'S12'):
                    ps = [comp] * 7
                    ps[pos] = p
                    yield Sig(ret, ps[:max(pos + 1, 6 if pos < 5 else 7)])
    # all short sequences over representatives
    rep = ['s8', 's32', 'u64', 'float', 'double', 'S3', 'S8', 'S16']
    for n in (2, 3):
        for ps in itertools.product(rep, repeat=n):
            yield Sig('s64', ps)
            yield Sig('S24', ps)
            if thorough:
                yield Sig('double', ps)
    for ps in itertools.product(['s16', 'u64', 'float', 'S5'] if not thorough else ['s16', 'u64', 'float', 'double', 'S5', 'S4'], repeat=4 if not thorough else 5):
        yield Sig('void', ps)
        yield Sig('S9', ps)
    # long lists
    for n in range(1, 40 if thorough else 20):
        for t in ('s32', 'double', 'S3', 'u8', 'S16', 'float'):
            yield Sig('s32', [t] * n)
            yield Sig('S16', [t] * n)
    # variable arguments
    va = ['s32', 'u64', 'double', 'ptr', 'S8', 'S3', 'S16', 's64']
    for nf in (1, 2, 3, 5):
        for n in (1, 2, 3):
            for ps in itertools.product(va if n < 3 else va[:5], repeat=n):
                yield Sig('s32', (['s32', 'double', 'u8', 'S3', 's64'])[:nf], ps)
    for ps in itertools.product(['s32', 'double', 'S8'], repeat=5):
        yield Sig('S12', ['ptr'], ps)
    # through pointers
    for r in ['void'] + ALL:
        for p in ALL if thorough else ['s8', 'double', 'S3', 'S8', 'u64']:
            yield Sig(r, [p, 'float', p], kind='ptr')
            yield Sig(r, ['s32', p, p, 'S16', p], kind='arr')
    # temporaries live across the call, and calls in the arguments
    for ret in ('s32', 'double', 'S24', 'float', 'u64', 'S8'):
        for n in range(0, 5 if ret in ('s32', 'double') or thorough else 3):
            for ps in itertools.product(['s32', 'double'] if n < 5 else ['s64', 'float'], repeat=n):
                for live in [(g, f) for g in range(0, 8) for f in range(0, 7) if (g, f) != (0, 0) and (thorough or n < 2 or (g in (0, 1, 3, 7) and f in (0, 1, 2, 4, 6)))]:
                    s = Sig(ret, ps)
                    s.live = live
                    yield s
    rep = ['s32', 'double', 'u8', 'float', 'S3', 'S8', 'S24']
    for n in range(1, 6):
        for ps in itertools.product(rep if n < 3 else rep[:2] + ['S24'] if n < 4 else ['u64', 'double'], repeat=n):
            for nest in [t for k in range(1, n + 1) for t in itertools.combinations(range(n), k)]:
                for live in ((0, 0), (2, 2)):
                    s = Sig('s32', ps)
                    s.live, s.nest = live, nest
                    yield s
    # garbage above small values
    for t in ['_Bool', 's8', 'u8', 's16', 'u16', 's32', 'u32']:
        yield Sig(t, [], dirty=True)
        for n in range(1, 7):
            yield Sig('void', [t] * n, dirty='args')


IDT = ['s32', 'u64', 'double', 'u8', 'float', 'S3', 'S8', 'S24']
MIX = '''
// recursion, mutual recursion and calls as arguments
extern s32 fib(s32 n); extern u64 ack(u64 m, u64 n); extern S12 mk(s32 a, double b, s8 c); extern double use(S12 a, float f, S12 b, s32 i, S12 c); extern s32 even(s32 n); extern s32 odd(s32 n); extern S24 swap(S24 a, s32 d);
''' + ''.join(f'extern {t} id_{t}(s32 i, {t} x);\n' for t in IDT)
MIXDEF = '''
s32 fib(s32 n){ return n < 2 ? n : fib(n - 1) + fib(n - 2); }
u64 ack(u64 m, u64 n){ if(m == 0) return n + 1; if(n == 0) return ack(m - 1, 1); return ack(m - 1, ack(m, n - 1)); }
S12 mk(s32 a, double b, s8 c){ S12 r; fl(&r, sizeof(r), a + (s32)b + c); return r; }
double use(S12 a, float f, S12 b, s32 i, S12 c){ return hb(&a, 12) % 1000 + f * 2 + hb(&b, 12) % 1000 * 3 + i + hb(&c, 12) % 1000 * 5; }
S24 swap(S24 a, s32 d){ a.b[d] = (u8)d; a.b[23 - d] ^= 0x55; if(d < 12) return swap(a, d + 1); return a; }
'''
IDDEF = ''.join(f'extern {t} id_{t}(s32 i, {t} x);\n{t} id_{t}(s32 i, {t} x){{ CLOB return x; }}\n' for t in IDT)
MIXUSE = '''
void mix(void){ O(fib(12)); O(ack(2, 4)); O((s64)(use(mk(1, 2.5, 3), 1.5f, mk(4, (double)fib(6), (s8)ack(1, 2)), fib(5), mk(fib(4), use(mk(1, 1, 1), 2, mk(2, 2, 2), 3, mk(3, 3, 3)) / 1000, -1)) * 4));
 S24 a; fl(&a, 24, 5); S24 b = swap(a, 0); O(hb(&a, 24)); O(hb(&b, 24)); b = swap(swap(b, 3), 5); O(hb(&b, 24)); O(swap(b, 2).b[7]); }
'''
# the callee leaves garbage in every volatile register
VA_CLANG = r'''#define CLOB __asm__ volatile("movabs $0x5a5a5a5a5a5a5a5a, %%rax; mov %%rax, %%rcx; mov %%rax, %%rdx; mov %%rax, %%r8; mov %%rax, %%r9; mov %%rax, %%r10; mov %%rax, %%r11; movq %%rax, %%xmm0; movq %%rax, %%xmm1; movq %%rax, %%xmm2; movq %%rax, %%xmm3; movq %%rax, %%xmm4; movq %%rax, %%xmm5" ::: "rax", "rcx", "rdx", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5");
''' + '#define va_list __builtin_va_list\n#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n'
VA_HLC = '#include <stdarg.h>\n#define CLOB\n'


def run_batch(c, base, ss):
    if len(c.violations) > 30:
        return
    dirty = 'static u64 dirty(void *p, u64 n){ u64 x = 0xa5a5a5a5deadbeefull; u8 *d = (u8 *)&x, *s = p; for(u64 i = 0; i < n; i++) d[i] = s[i]; return x; }\n'
    cal, clr, drv = '', dirty, ''
    mix = base == 0
    cal += IDDEF
    clr += ''.join(f'extern {t} id_{t}(s32 i, {t} x);\n' for t in IDT)
    if mix:
        cal += MIX + MIXDEF
        clr += MIX + MIXUSE
    off = 0
    offs = []
    drv = 'u64 *o_; typedef unsigned long long u64;\n'
    drv = 'typedef unsigned long long u64; u64 *o_;\n' + ''.join(f'extern void c{base + i}(void);\n' for i in range(len(ss))) + ('extern void mix(void);\n' if mix else '')
    drv += '__declspec(dllexport) u64 run(u64 *buf, u64 n){ u64 w = buf[0]; buf[0] = 0;\n'
    for i, s in enumerate(ss):
        cal += (s.callee(base + i) if s.dirty != 'args' else Sig(s.ret, s.params).callee(base + i))
        clr += s.caller(base + i)
        drv += f'if(w == {i} || w == ~0ull){{ o_ = buf + {off}; c{base + i}(); }}\n'
        offs.append(off)
        off += nobs(s)
    if mix:
        drv += f'if(w == ~0ull){{ o_ = buf + {off}; mix(); }}\n'
        offs.append(off)
        off += 16
    drv += f'return {off * 8}; }}\n'
    odrv = c.ref.obj(drv)
    arg = '/obj /no_debug /quiet a.c /out a.obj'

    def hlc(src):
        r = c.e.compile({'a.c': src}, arg)
        o = r.files.get('a.obj')
        if r.kind != 'exit' or r.code or not o:
            return None, r
        return o, r
    parts = {}
    for nm, src in (('callee', cal), ('caller', clr)):
        h, r = hlc(VA_HLC + PRE + src)
        if h is None:
            if len(ss) > 1:
                k = len(ss) // 2
                run_batch(c, base, ss[:k])
                run_batch(c, base + k, ss[k:])
                return
            c.count(1)
            c.violation(ss[0].key(), f'valid {nm} not compiled: {r}', {'a.c': VA_HLC + PRE + src})
            return
        parts[nm, 'h'] = h
        parts[nm, 'c'] = c.ref.obj(VA_CLANG + PRE + src, '-O2' if nm == 'caller' else '-O1')
    both, r = hlc(VA_HLC + PRE + cal + clr.replace(dirty, dirty))
    out = {}
    for cfg in ('cc', 'ch', 'hc', 'hh', 'one'):
        if cfg == 'one':
            # the direct (whole program) path of the compiler itself
            r = c.e.compile({'a.c': VA_HLC + PRE + cal, 'b.c': VA_HLC + PRE + clr, 'd.c': drv}, 'a.c b.c d.c /dll /no_entry /no_stdlib /no_debug /quiet /out a.dll')
            if any(s.dirty for s in ss):
                continue   # deliberately mismatching declarations across files
            dll = r.files.get('a.dll')
            if not dll:
                if len(ss) > 1:
                    k = len(ss) // 2
                    run_batch(c, base, ss[:k])
                    run_batch(c, base + k, ss[k:])
                    return
                c.violation(ss[0].key(), f'valid program not compiled: {r}', {'a.c': VA_HLC + PRE + cal, 'b.c': VA_HLC + PRE + clr, 'd.c': drv})
                return
        else:
            dll = c.ref.link([odrv, parts['callee', cfg[0]], parts['caller', cfg[1]]])
        r = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=off * 8 + 64)
        if r.kind == 'exit':
            out[cfg] = [r.buf[offs[i] * 8: (offs[i + 1] if i + 1 < len(offs) else off) * 8] for i in range(len(offs))]
        else:
            out[cfg] = []
            for i, s in enumerate(ss):
                r1 = c.e.run_dll(dll, inp=hx.u64(i), bufsize=off * 8 + 64, full=True)
                out[cfg].append(r1.buf[offs[i] * 8: (offs[i + 1] if i + 1 < len(offs) else off) * 8] if r1.kind == 'exit' else repr(r1))
            if mix:
                out[cfg].append(b'' if cfg == 'cc' else repr(r))
            if cfg == 'cc':
                raise EngineError(f'reference crashed {r}')
    c.count(len(ss) * (len(out) - 1), links=len(out))
    for i in range(len(offs)):
        key = ss[i].key() if i < len(ss) else 'mix'
        if any(out['cc'][i]):
            c.seen(key)
        for cfg, nm in (('ch', 'caller hlc, callee clang'), ('hc', 'caller clang, callee hlc'), ('hh', 'both hlc objects'), ('one', 'both hlc, direct')):
            if cfg in out and out[cfg][i] != out['cc'][i]:
                g = out[cfg][i]
                c.violation(f'{cfg}:{key}', f'{nm}: ' + (g if isinstance(g, str) else f'got {struct.unpack("<%dQ" % (len(g) // 8), g)}\nexpected {struct.unpack("<%dQ" % (len(g) // 8), out["cc"][i])}'),
                            {'callee.c': VA_HLC + PRE + (ss[i].callee(base + i) if i < len(ss) else MIX + MIXDEF), 'caller.c': VA_HLC + PRE + dirty + (ss[i].caller(base + i) if i < len(ss) else MIX + MIXUSE), 'driver.c': drv})


def body(c):
    ss = []
    seen = set()
    for s in sigs(c.thorough):
        if s.key() not in seen:
            seen.add(s.key())
            ss.append(s)
    c.cov['signatures'] = len(ss)
    n = 80
    c.e.map(lambda i: run_batch(c, i, ss[i:i + n]), range(0, len(ss), n))
    c.sample({'callee': ss[40].callee(40), 'caller': ss[40].caller(40)})
    c.sample({'callee': ss[-1].callee(1), 'caller': ss[-1].caller(1)})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every signature of the stated families x the four pairings of hlc and clang-18 (caller -O2, callee -O1) plus the direct whole-program path; observed: bytes of every argument in the callee, of the result and of the arguments after the call in the caller, values live across the call, stack alignment. Non-trivial: some observation non-zero.'
    c.assumptions += ['clang-18 implements the Microsoft x64 calling convention']


if __name__ == '__main__':
    main('C04', 'exploration', body)
