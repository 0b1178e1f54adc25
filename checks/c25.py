from common import *
from gen_stmt import stmt_items, PRE
import struct, itertools
import c14
LINK = '/opt/hlc/sdk'

H25 = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
static u64 *o_; static u64 h_;
#define A(x) (h_ = h_ * 31 + (u64)(x))
static u64 leaf(u64 x){ return x + 1; }
static u64 two(u64 x){ return leaf(x) + leaf(x + 1); }
static double fl(double x){ return x * 0.5; }
'''
SIZES = [0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 49, 56, 63, 64, 65, 72, 79, 80, 81, 88, 95, 96, 97, 104, 111, 112, 113, 120, 121, 127, 128, 129, 136, 144, 200, 248, 255, 256, 257, 264, 500, 512, 1000, 1016, 1023, 1024, 1025, 2000, 4000, 4024, 4032, 4040, 4056, 4080, 4088, 4095, 4096, 4097, 4104, 4200, 8000, 8191, 8192, 8193, 12288, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 262144, 400000, 524000, 524224, 524240, 524248, 524256, 524264, 524272, 524280, 524288, 524296, 600000]
BODIES = {
    'leaf': 'x += 3;', 'call': 'x = leaf(x);', 'calls': 'x = two(x) + leaf(two(x));', 'args6': 'x = a6(x, 2, 3, 4, 5, x);', 'args9': 'x = a9(x, 2, 3, 4, 5, x, 7, 8, 9);', 'var': 'x = va(5, x, 2ull, 3ull, x, 5ull);', 'struct': 'struct b b = sb(x); x = b.a[3] + sa(b);', 'float': 'x += (u64)fl((double)(s64)x);',
    'live': 'x = (x + 1) * (x ^ leaf(x + (x * 3 - leaf(x & (x + 5)))));', 'fp': 'u64 (*f)(u64) = two; x = f(x) + f(f(x));', 'rec': 'x = rec(x & 3);', 'loop': 'for(int i = 0; i < 3; i++) x = leaf(x) * i;', 'alloca': 'u8 *q = (u8 *)_alloca(x % 100 + 8); q[0] = (u8)x; x += q[0] + leaf(x);', 'alloca2': 'for(int i = 0; i < 2; i++){ u8 *q = (u8 *)_alloca(16); q[3] = (u8)i; x += a6(x, q[3], 3, 4, 5, 6); }', 'ret': 'if(x & 1) return two(x); if(x & 2) return 9;',
    'div': 'x = x / (leaf(1) + 1) % 7;', 'switch': 'switch(x % 3){ case 0: x = leaf(x); break; case 1: return two(x); }', 'copy': 'struct b b = sb(x), c = b; c.a[1] = two(x); b = c; x = b.a[1];', 'asm': '__asm__ { mov rax, x\n add rax, 5\n mov x, rax\n }', 'asmrbx': '__asm__ { mov rax, x\n xor rax, 4\n mov x, rax\n } x = leaf(x);', 'shift': 'x = x << (x & 3) >> leaf(1);', 'noret': 'if(x == 12345) stop(x); x = leaf(x);', 'str': 'x += "abc"[x & 1];', 'cond': 'x = x & 1 ? two(x) : leaf(x);',
    'try': '__try { x = two(x); *(volatile int *)0 = 1; } __except(1){ x = leaf(x); }', 'tryx': '__try { x = deep(x); } __except(two(x) & 0, 1){ x = two(x); }',
}
COMMON = '''struct b { u64 a[4]; };
static u64 a6(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f){ return two(a + b) * c + d + e * f; }
static u64 a9(u64 a, u8 b, u64 c, s16 d, u64 e, u64 f, u32 g, u64 h, s64 i){ return leaf(a + b) * c + d + e * f + g + h + i; }
typedef char *va_list;
static u64 va(u64 n, ...){ u64 *p = &n; u64 s = 0; for(u64 i = 1; i <= n; i++) s += leaf(p[i]); return s; }
static struct b sb(u64 x){ struct b b; b.a[0] = x; b.a[1] = leaf(x); b.a[2] = 3; b.a[3] = two(x); return b; }
static u64 sa(struct b b){ b.a[2] += leaf(b.a[1]); return b.a[2] + b.a[0]; }
static u64 rec(u64 n){ u8 t[40]; t[n] = (u8)n; return n ? rec(n - 1) + t[n] : leaf(5); }
static __declspec(noreturn) void stop(u64 x){ for(;;) x++; }
static u64 deep3(u64 x){ u8 t[5000]; t[x & 7] = 1; return t[x & 7] + *(volatile u8 *)0; }
static u64 deep2(u64 x, u64 a, u64 b, u64 c, u64 d){ return deep3(x) + a + b + c + d; }
static u64 deep(u64 x){ return deep2(x, 1, 2, 3, 4) + 1; }
'''
SIGS = ['void', 'u64 a', 'u8 a, u64 b', 'double a, u64 b', 'u64 a, double b, u64 c', 'u64 a, u64 b, u64 c, u64 d', 'u64 a, u64 b, u64 c, u64 d, u64 e', 'struct b a', 'u64 a, struct b b, u64 c', 'float a, float b, float c, float d, float e', 'u64 a, ...', 'u8 a, u16 b, u32 c, u64 d, u8 e, u16 f, u32 g']
RETS = ['u64', 'u8', 'double', 'struct b', 'struct s3', 'void', 'float']


def progs(th):
    n = 0
    out = []
    sizes = SIZES
    bodies = list(BODIES)
    for si, s in enumerate(sizes):
        for b in bodies:
            if s > 20000 and b not in ('leaf', 'calls', 'args9', 'alloca', 'try', 'live') and not th:
                continue
            loc = f'volatile u8 l[{s}]; l[0] = (u8)x; l[{s - 1}] = 1; x += l[0];' if s else ''
            out.append((f'frame/{s}/{b}', f'static u64 f_@(u64 x){{ {loc} {BODIES[b]} return x; }}\n', f'A(f_@(h_ | 1)); A(f_@(2));'))
    for r in RETS:
        for gi, g in enumerate(SIGS):
            for b in bodies:
                ret = {'u64': 'x', 'u8': '(u8)x', 'double': '(double)(s64)x', 'struct b': 'sb(x)', 'struct s3': 's', 'void': '', 'float': '(float)(s32)x'}[r]
                call = {'void': '', 'u64 a': '1', 'u8 a, u64 b': '1, 2', 'double a, u64 b': '1.5, 2', 'u64 a, double b, u64 c': '1, 2.5, 3', 'u64 a, u64 b, u64 c, u64 d': '1,2,3,4', 'u64 a, u64 b, u64 c, u64 d, u64 e': '1,2,3,4,5', 'struct b a': 'bb', 'u64 a, struct b b, u64 c': '1, bb, 2', 'float a, float b, float c, float d, float e': '1,2,3,4,5', 'u64 a, ...': '1, 2ull, 3ull, 4ull, 5ull, 6ull', 'u8 a, u16 b, u32 c, u64 d, u8 e, u16 f, u32 g': '1,2,3,4,5,6,7'}[g]
                body = BODIES[b]
                if b in ('ret', 'switch') and r in ('struct b', 'struct s3', 'void'):
                    continue
                ext = 'x += a;' if g.startswith(('u64 a', 'u8 a')) else ''
                out.append((f'sig/{r}/{gi}/{b}', f'static {r} f_@({g}){{ u64 x = h_ & 0xff; {ext} struct s3 s = {{1, 2, 3}}; {body} A(x); return {ret}; }}\n'.replace('return ;', ''), f'f_@({call});'))
    for a, b in itertools.product(bodies, bodies):
        out.append((f'pair/{a}/{b}', f'static u64 f_@(u64 x){{ {{ {BODIES[a]} }} {{ {BODIES[b]} }} return x; }}\n', f'A(f_@(h_ | 1)); A(f_@(6));'))
    return out


def body(c):
    ps = progs(c.thorough)
    B = 24
    batches = []
    for i in range(0, len(ps), B):
        g = ps[i:i + B]
        s = H25 + COMMON + 'struct s3 { u8 a, b, c; };\n'
        body_ = ''
        for k, (key, d, call) in enumerate(g):
            s += d.replace('_@', f'_{k}')
            body_ += f'if(w == {k} || w == ~0ull){{ {call.replace("_@", f"_{k}")} }}\n'
        s += '__declspec(dllexport) u64 run(u64 *o, u64 n){ u64 w = o[0]; struct b bb; bb.a[0] = 1; bb.a[1] = 2; bb.a[2] = 3; bb.a[3] = 4; (void)bb; h_ = 7;\n' + body_ + ' o[0] = h_; return 8; }\n'
        batches.append((g, s))
    st = [k for k in uniq(stmt_items(3 if not c.thorough else 4))]
    for i in range(0, len(st), 40):
        src, tot = render(st[i:i + 40], HEAD + PRE)
        batches.append(([(it.key, '', '') for it in st[i:i + 40]], src))
    index = {b[0][0][0]: i for i, b in enumerate(batches)}
    obj = c14.Obj(c)

    def one(b):
        g, s = b
        for mode, args in (('image', 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll'), ('obj', 'a.c /c /quiet /no_debug /out a.obj'), ('debug', 'a.c /dll /no_entry /no_stdlib /quiet /out a.dll')):
            if mode != 'image' and not c.thorough and index[g[0][0]] % 6:
                continue
            r = c.e.compile({'a.c': s}, args, timeout=30)
            if mode == 'obj':
                o = r.files.get('a.obj')
                dll, out = obj.link([o], imp=True) if o else (None, '')
                r.out += out.encode()
            else:
                dll = r.files.get('a.dll')
            if not dll:
                raise EngineError(f'{g[0][0]}: a valid program is rejected {r.kind} {r.code:#x} {r.out[-500:].decode("latin1")}')
            plain = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=1 << 16, stack=8 << 20)
            r = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=1 << 16, step=(1, 0), timeout=60, stack=8 << 20)
            c.count(len(g), instructions_unwound=r.aux[0])
            for key, _, _ in g:
                c.seen(key)
            if r.kind == 'exit' and plain.kind == 'exit' and r.buf == plain.buf:
                continue
            found = False
            for k, (key, d, call) in enumerate(g):
                r1 = c.e.run_dll(dll, inp=hx.u64(k), bufsize=1 << 16, step=(1, 0), timeout=60, stack=8 << 20)
                if r1.kind != 'exit':
                    found = True
                    c.violation(f'{mode}/{key}', f'{r1.kind} {r1.code:#x} after {r1.aux[0]} instructions: {r1.errs} {d}', {'a.c': s, 'item.txt': d, 'a.dll': dll})
            if not found:
                c.violation(f'{mode}/batch/{g[0][0]}', f'{r.kind} {r.code:#x} rip={r.rip:#x} {r.errs} plain {plain}', {'a.c': s, 'a.dll': dll})

    c.e.map(one, batches)
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every executed instruction of every function shape (frame-size ladder x body kinds, return type x signature x body kinds, pairs of bodies, all statement trees up to 3 nodes): the frame and all its callers are unwound with the emitted unwind data and compared with the shadow stack recorded at the calls. Non-trivial: each program executed to the end with the stepping unwinder.'
    c.sample({'frame sizes': SIZES[:20], 'bodies': list(BODIES)})
    c.assumptions += ['the unwinder of the engine follows the documented x64 procedure, including epilogue detection']


if __name__ == '__main__':
    main('C25', 'exploration', body)
