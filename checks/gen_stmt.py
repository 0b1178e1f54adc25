"""All statement trees with a given number of nodes. Conditions read a stream of input bits; every executed trace point is recorded."""
from functools import lru_cache

PRE = r'''
static u64 h_, bits_; static s32 n_;
static u64 HH(u64 h, u64 r){ return (h ^ r) * 0x9E3779B97F4A7C15ull + (h >> 29); }
static s32 tr(s32 k){ h_ = HH(h_, k); return ++n_ > 24; }
#define T(k) if(tr(k)) return
static s32 bit(void){ s32 r = (s32)(bits_ & 1); bits_ >>= 1; h_ = HH(h_, 1000 + r); return r; }
static s32 two(void){ return bit() * 2 + bit(); }
#define RUN(f, nb) for(s32 i = 0; i < (1 << nb); i++){ bits_ = i; h_ = 1; n_ = 0; f(); acc = HH(acc, h_); }
'''


@lru_cache(None)
def trees(n, loop, sw):
    """tuple of statement texts with n nodes; '%' is replaced by fresh trace numbers"""
    out = []
    if n == 1:
        out.append('T(%);')
        if loop or sw:
            out.append('break;')
        if loop:
            out.append('continue;')
        out.append('return;')
        out.append('goto L;')
        return tuple(out)
    for b in trees(n - 1, loop, sw):
        out.append(f'if(bit()) {{ {b} }}')
        out.append(f'lab%: {b}')
    for b in trees(n - 1, True, sw):
        out.append(f'while(bit()) {{ {b} T(%); }}')
        out.append(f'do {{ T(%); {b} }} while(bit());')
        out.append(f'for(s32 i = 0; i < 2; i++, tr(%)) {{ {b} }}')
        out.append(f'for(;;) {{ T(%); {b} }}')
    for k in range(1, n - 1):
        for a in trees(k, loop, sw):
            for b in trees(n - 1 - k, loop, sw):
                out.append(f'if(bit()) {{ {a} T(%); }} else {{ {b} T(%); }}')
                if a not in ('break;', 'continue;', 'return;', 'goto L;'):
                    out.append(f'{{ {a} T(%); {b} }}')
        for a in trees(k, loop, True):
            for b in trees(n - 1 - k, loop, True):
                out.append(f'switch(two()){{ case 0: T(%); {a} case 2: T(%); {b} default: T(%); }}')
                out.append(f'switch(two()){{ default: T(%); {a} case 1: case 3: T(%); {b} }}')
        for a in trees(k, True, True):
            for b in trees(n - 1 - k, True, True):
                out.append(f'switch(two()){{ case 0: do {{ T(%); {a} case 1: T(%); {b} }} while(bit()); case 2: T(%); }}')
    return tuple(out)


def number(t):
    p = t.split('%')
    return ''.join(x + (str(i) if i < len(p) - 1 else '') for i, x in enumerate(p))


def stmt_items(n, nbits=6):
    for i, t in enumerate(trees(n, False, False)):
        body = number(t)
        for lab in ('pre', 'post'):
            if lab == 'pre' and 'goto L;' not in body:
                continue
            f = f'L: T(900); {body} T(901);' if lab == 'pre' else f'{body} T(901); L: T(902);'
            yield ('stmt', n, i, lab), f'static void f_@(void){{ {f} }}\n', f'u64 acc = 1; RUN(f_@, {nbits}); O(acc);'
