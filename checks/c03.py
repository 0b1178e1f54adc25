from common import *
from gen_stmt import *

CONDS = ['bit()', '!bit()', 'bit() && bit()', 'bit() || bit()', 'bit() && bit() && bit()', 'bit() || bit() && bit()', '(bit() || bit()) && bit()', 'bit() && bit() || bit()', '!(bit() && bit())', '!(bit() || !bit())', 'bit() ? bit() : bit()',
         'bit() ? 1 : bit()', 'bit() ? bit() : 0', '(bit(), bit())', 'bit() == 1', 'bit() != 0', 'bit() - 1', 'bit() < bit()', '(x = bit())', '(x = bit()) && x', 'x++ < 2', '--x', 'bit() * 0.5', '(float)bit()', '(s8)bit()', '(u64)bit() << 40',
         'bit() ? p : 0', 'p && bit()', '!p || bit()', 'bit() && 1', 'bit() && 0', '0 && bit()', '1 || bit()', '0 || bit()', '1 && bit()', '1', '0', '!0', '1 ? bit() : 0', '0 ? bit() : bit()', '"s" && bit()', 'fp && bit()', '(bit() & bit())', '(_Bool)(bit() * 256)', '!!bit()', '~bit()', '-bit()',
         'bit() > 0 ? bit() || bit() : bit() && bit()', '(bit() ? bit() : bit()) ? bit() : !bit()', 's.b', 's.b && bit()', 'arr[bit()]', '*(&x)', 'sizeof(x) && bit()', 'bit() || (h_ += 3, 0)', '(u8)(bit() + 255)', 'bit() * 1.5f && bit()', 'sw(bit()) == 7']
CTXS = ['if({c}) T(1); T(2);', 'if({c}) T(1); else T(2); T(3);', 'while({c}){{ T(1); }} T(2);', 'do T(1); while({c}); T(2);', 'for(;{c};) T(1); T(2);', 'for(x = 1; {c}; x = x + 1){{ T(1); if(bit()) continue; T(2); }} T(3);', 'x = {c}; T(x + 10);',
        'x = ({c}) ? 5 : 6; T(x);', 'x = !({c}); T(x);', 'x = ({c}) + 3; T(x);', 'x = ({c}) || bit(); T(x);', 'x = bit() && ({c}); T(x);', 'switch(!!({c})){{ case 0: T(1); case 1: T(2); break; default: T(3); }} T(4);', 'x = arr[!!({c})]; T(x);', 'T(sw(!!({c})));',
        'if(({c}) && bit()) T(1); else if({c}) T(2); else T(3);', '{{ _Bool b = {c}; T(b); }}', 'x += !!({c}); T(x);', 'if(!({c})) goto e; T(1); e: T(2);', 'while(1){{ if({c}) break; T(1); if(bit()) return; }} T(2);']


def cond_items():
    pre = 's32 x = 3; s32 *p = &x; s32 arr[2]; arr[0] = 0; arr[1] = 4; struct { s32 a : 3; s32 b : 2; } s; s.a = 1; s.b = bit(); s32 (*fp)(void) = bit; (void)p; (void)fp;\n'
    for i, c in enumerate(CONDS):
        for j, k in enumerate(CTXS):
            if c == 'bit() ? p : 0' and k in ('x = {c}; T(x + 10);', 'x = ({c}) + 3; T(x);'):
                continue
            yield ('cond', i, j), 'static s32 sw_@(s32 x){ switch(x){ case 0: return 7; case 1: return 9; } return 0; }\n#define sw sw_@\nstatic void f_@(void){ ' + pre + k.format(c=c) + ' }\n#undef sw\n', 'u64 acc = 1; RUN(f_@, 7); O(acc);'


SWT = {'s8': [-128, -1, 0, 1, 127], 'u8': [0, 1, 128, 255], 's16': [-32768, -1, 0, 32767], 'u16': [0, 1, 32768, 65535], 's32': [-2147483647 - 1, -1, 0, 1, 2147483647], 'u32': [0, 1, 2147483648, 4294967295],
       's64': [-2**63, -2**31 - 1, -1, 0, 2**31, 2**32, 2**63 - 1], 'u64': [0, 1, 2**31, 2**32, 2**63, 2**64 - 1]}


def lit(t, v):
    if t == 's64' and v == -2**63:
        return '(-9223372036854775807ll-1)'
    if t == 's32' and v == -2**31:
        return '(-2147483647-1)'
    return f'{v}' + ('ull' if t == 'u64' else 'll' if t == 's64' else 'u' if t == 'u32' else '')


def switch_items(counts):
    for t, vs in SWT.items():
        for perm in range(len(vs)):
            for dflt in (None, 0, 1, len(vs)):
                for ft in (0, 1):
                    order = vs[perm:] + vs[:perm]
                    cs = [f'case {lit(t, v)}: h = h * 31 + {i + 1}; ' + ('' if ft else 'break;') for i, v in enumerate(order)]
                    if dflt is not None:
                        cs.insert(min(dflt, len(cs)), 'default: h = h * 31 + 77; ' + ('' if ft else 'break;'))
                    probe = set()
                    for v in vs:
                        for d in (-1, 0, 1, 256, 65536, 2**32):
                            probe.add(v + d)
                    lo, hi = ((-2**(8 * int(t[1:]) // 8 - 1), 2**(int(t[1:]) - 1) - 1) if t[0] == 's' else (0, 2**int(t[1:]) - 1))
                    if t[0] == 's':
                        lo, hi = -2**(int(t[1:]) - 1), 2**(int(t[1:]) - 1) - 1
                    pv = [lit(t, v) for v in sorted(probe) if lo <= v <= hi]
                    yield ('switch', t, perm, dflt, ft), f'static u64 f_@({t} x){{ u64 h = 1; switch(x){{ {" ".join(cs)} }} return h; }}\n', f'static {t} v[] = {{{",".join(pv)}}}; u64 acc = 1; for(s32 i = 0; i < {len(pv)}; i++) acc = HH(acc, f_@(v[i])); O(acc);'
    for n in counts:
        for step in (1, 3, 1000):
            for body in ('break', 'ret', 'fall'):
                cs = ''.join(f'case {i * step}: h += {i}; ' + {'break': 'break;', 'ret': 'return h;', 'fall': ''}[body] + '\n' for i in range(n))
                yield ('cases', n, step, body), f'static u64 f_@(s32 x){{ u64 h = 7; switch(x){{ {cs} default: h ^= 0x55; }} return h * 3; }}\n', f'u64 acc = 1; for(s32 i = -3; i < {min(n * step + 5, 4000)}; i++) acc = HH(acc, f_@(i)); O(acc);'


def size_items(sizes):
    for n in sizes:
        pad = ''.join(f'x = x * 3 + {i}; ' + ('\n' if i % 8 == 0 else '') for i in range(n))
        forms = {'if': f'if(bit()){{ {pad} }} x += 5;', 'ifelse': f'if(bit()){{ {pad} }} else {{ x ^= 1; {pad} }}', 'while': f'while(bit()){{ {pad} }}', 'do': f'do {{ {pad} if(bit()) continue; x++; }} while(bit());', 'for': f'for(s32 i = 0; i < 3; i++){{ if(bit()) continue; {pad} if(bit()) break; x++; }}',
                 'switch': f'switch(two()){{ case 0: {pad} case 1: x += 7; break; case 2: {pad} default: x += 9; }}', 'goto': f'if(bit()) goto e; b: {pad} e: x += 3; if(bit()) goto b;', 'ret': f'if(bit()) {{ h_ = x; return; }} {pad} if(bit()) {{ h_ = HH(h_, x); return; }} {pad}',
                 'tern': f'x = bit() ? {"+".join(["x"] * (n + 1))} : {"*".join(["x"] * (n + 1))};', 'and': f'if({" && ".join(["x + bit()"] * (n // 4 + 1))}) x += 2; else x += 3;', 'or': f'if({" || ".join(["bit()"] * (n // 4 + 1))}) x += 2; else x += 3;'}
        for k, f in forms.items():
            if k == 'tern' and n > 200:
                continue
            yield ('size', k, n), f'static void f_@(void){{ u64 x = 5; {f} h_ = HH(h_, x); }}\n', 'u64 acc = 1; RUN(f_@, 5); O(acc);'


def nest_items(depths):
    for d in depths:
        for k, (a, b) in {'if': ('if(bit() + 1){{ T({i});', '}}'), 'else': ('if(bit()) T({i}); else {{', '}}'), 'while': ('while(1){{ T({i}); if(n_ > 15) break;', 'if(bit()) continue; break; }}'), 'for': ('for(s32 i{i} = 0; i{i} < 2; i{i}++){{ T({i});', 'if(bit()) break; }}'),
                          'switch': ('switch(bit()){{ case 1: T({i}); default: ', 'T({i}); }}'), 'do': ('do {{ T({i});', '}} while(0);'), 'block': ('{{ s32 x = {i}; T(x);', 'T(x); }}')}.items():
            f = ''.join(a.format(i=i) for i in range(d)) + 'T(500);' + ''.join(b.format(i=i) for i in reversed(range(d)))
            yield ('nest', k, d), f'static void f_@(void){{ {f} }}\n', 'u64 acc = 1; RUN(f_@, 6); O(acc);'


def body(c):
    d = Diff(c, head=HEAD + PRE, batch=60)
    n = 0
    for k in range(1, 7 if c.thorough else 6):
        it = uniq(stmt_items(k))
        n += len(it)
        d.run(it)
        if k == 3:
            c.sample({'tree': it[40].decl})
    c.cov['statement_trees'] = n
    d.run(uniq(cond_items()))
    big = Diff(c, head=HEAD + PRE, batch=8)
    big.run(uniq(switch_items([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 65, 127, 128, 129, 255, 256, 257, 300] + ([511, 513, 1000, 1025] if c.thorough else []))))
    big.run(uniq(size_items([0, 1, 2, 3, 4, 6, 8, 10, 12, 16, 24, 32, 64, 130, 700] + ([3000, 5000] if c.thorough else []))))
    big.run(uniq(nest_items([1, 2, 3, 7, 8, 15, 16, 17, 30] + ([40, 60] if c.thorough else []))))
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'all statement trees with up to 5 (thorough 6) nodes over the statement grammar x all bit streams of length 6; condition forms x contexts; switch types x case orders; size and nesting ladders. Non-trivial: reference trace hash is non-zero.'
    c.assumptions += ['the clang-18 reference is right on defined programs']


if __name__ == '__main__':
    main('C03', 'exploration', body)
