from common import *
import itertools, re

M64 = 2**64 - 1
INTS = {'_Bool': (1, 0), 's8': (8, 1), 'u8': (8, 0), 's16': (16, 1), 'u16': (16, 0), 's32': (32, 1), 'u32': (32, 0), 'long': (32, 1), 'unsigned long': (32, 0), 's64': (64, 1), 'u64': (64, 0)}
ORD = ['s32', 'u32', 'long', 'unsigned long', 's64', 'u64']
FLT = ['float', 'double']


def wrap(t, v):
    if t == '_Bool':
        return int(v != 0)
    n, s = INTS[t]
    v &= (1 << n) - 1
    return v - (1 << n) if s and v >> (n - 1) else v


def prom(t):
    return 's32' if t not in ORD else t


def usual(a, b):
    a, b = prom(a), prom(b)
    t = max(a, b, key=ORD.index)
    return 'unsigned long' if t == 'long' and 'u32' in (a, b) else t


def spell(v, t):
    """literal with its natural type where there is one, else a cast"""
    if t == 's32':
        return str(v) if v >= 0 else f'(-{-v})' if v != -2**31 else '(-2147483647 - 1)'
    if t == 'u32':
        return f'{v}u'
    if t == 'long':
        return f'{v}l' if v >= 0 else f'(-{-v}l)' if v != -2**31 else '(-2147483647l - 1)'
    if t == 'unsigned long':
        return f'{v}ul'
    if t == 's64':
        return f'{v}ll' if v >= 0 else f'(-{-v}ll)' if v != -2**63 else '(-9223372036854775807ll - 1)'
    if t == 'u64':
        return f'{v}ull'
    return f'({t}){v}' if v >= 0 else f'({t})(-{-v})'


VAL = {'_Bool': [0, 1], 's8': [0, 1, -1, 5, 127, -128], 'u8': [0, 1, 7, 128, 255], 's16': [0, -1, 3, 256, 32767, -32768], 'u16': [0, 1, 255, 32768, 65535], 's32': [0, 1, -1, 5, -7, 31, 65536, 2**31 - 1, -2**31], 'u32': [0, 1, 6, 31, 65535, 2**31, 2**32 - 1],
       's64': [0, 1, -1, 9, -10, 63, 2**32, -2**32 - 1, 2**63 - 1, -2**63], 'u64': [0, 1, 9, 63, 2**32 - 1, 2**32, 2**63, M64]}
VAL['long'], VAL['unsigned long'] = VAL['s32'], VAL['u32']
FV = {'float': ['0.0f', '1.0f', '-1.0f', '0.5f', '-2.75f', '100.25f', '16777216.0f', '3.0e9f', '1.5e-30f', '1e30f'], 'double': ['0.0', '1.0', '-1.0', '0.1', '-2.75', '100.25', '4294967296.0', '3.0e9', '1.5e-300', '1e200', '9007199254740993.0']}


def ev(op, ta, a, tb, b):
    """(type, value) or None when undefined"""
    if op in ('<<', '>>'):
        t = prom(ta)
        n, s = INTS[t]
        if not 0 <= b < n:
            return None
        if op == '>>':
            return t, wrap(t, a) >> b
        r = a << b
        if s and (a < 0 or r >= 1 << (n - 1)):
            return None
        return t, wrap(t, r)
    if op in ('&&', '||'):
        return 's32', int(bool(a and b) if op == '&&' else bool(a or b))
    t = usual(ta, tb)
    a, b = wrap(t, a), wrap(t, b)
    n, s = INTS[t]
    if op in ('==', '!=', '<', '<=', '>', '>='):
        return 's32', int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
    if op in ('/', '%'):
        if b == 0 or (s and a == -1 << (n - 1) and b == -1):
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return t, wrap(t, q if op == '/' else a - q * b)
    r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]
    if s and not -1 << (n - 1) <= r < 1 << (n - 1):
        return None
    return t, wrap(t, r)


OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '&&', '||']


def contexts(key, exprs, full=True):
    """exprs: [(text, type, value)]; one item observing them in the constant contexts. Expected values are computed here."""
    decl, body, exp = '', '', []
    es = exprs
    decl += f'static u64 g_@[] = {{ {", ".join("(u64)(" + e + ")" for e, t, v in es)} }};'
    decl += f'static u8 z_@[] = {{ {", ".join("sizeof(" + e + ")" for e, t, v in es)} }};'
    decl += f'static s64 q_@[] = {{ {", ".join(e for e, t, v in es)} }};'
    decl += ' '.join(f'_Static_assert(({e}) == {spell(v, t)}, "");' for e, t, v in es if t in ORD) + '\n'
    n = len(es)
    body += f'for(s32 i = 0; i < {n}; i++) O(g_@[i]); for(s32 i = 0; i < {n}; i++) O(z_@[i]); for(s32 i = 0; i < {n}; i++) O(q_@[i]);'
    exp += [v for e, t, v in es] + [max(8, INTS[t][0]) // 8 for e, t, v in es] + [v for e, t, v in es]
    for e, t, v in es:
        # the folded value used inside run-time code
        sg = int(INTS[t][1] and t != '_Bool') if prom(t) == t else 1
        body += f'O({e}); O((s64)({e}) + w_); O((({e}) * 0 - 1) < 0);'
        exp += [v, v, sg]
        if full:
            body += f'{{ s64 x = {e}; u8 y = (u8)({e}); s32 k = ({e}) ? 3 : 4; if({e}) k += 10; O(x); O(y); O(k); }}'
            exp += [v, v & 255, 13 if v else 4]
    small = [(e, v) for e, t, v in es if 0 < v < 500]
    if small:
        decl += ' '.join(f'static s8 arr{i}_@[{e}]; enum {{ E{i}_@ = {e}, F{i}_@ }};' for i, (e, v) in enumerate(small))
        body += ' '.join(f'O(sizeof(arr{i}_@)); O(E{i}_@); O(F{i}_@); O(sizeof(s16[{e}]));' for i, (e, v) in enumerate(small))
        for e, v in small:
            exp += [v, v, v + 1, 2 * v]
    bits = [(e, v) for e, t, v in es if 0 < v <= 32]
    if bits:
        decl += ' '.join(f'struct B{i}_@ {{ u32 a : {e}; }};' for i, (e, v) in enumerate(bits))
        body += ' '.join(f'{{ struct B{i}_@ b; b.a = w_ - 1; O(b.a); }}' for i, (e, v) in enumerate(bits))
        exp += [(1 << v) - 1 for e, v in bits]
    desig = [(e, v) for e, t, v in es if 0 <= v < 40]
    if desig:
        decl += ' '.join(f'static s8 d{i}_@[] = {{[{e}] = 7}};' for i, (e, v) in enumerate(desig))
        body += ' '.join(f'O(sizeof(d{i}_@)); O(d{i}_@[{v}]);' for i, (e, v) in enumerate(desig))
        for e, v in desig:
            exp += [v + 1, 7]
    neg = [(e, v) for e, t, v in es if -2**31 <= v < 2**31]
    if neg:
        decl += ' '.join(f'enum {{ N{i}_@ = {e} }};' for i, (e, v) in enumerate(neg))
        body += ' '.join(f'O(N{i}_@);' for i in range(len(neg)))
        exp += [v for e, v in neg]
    for ct in ('s32', 's64', 'u64', 'u8'):
        cs, seen = [], set()
        for e, t, v in es:
            k = wrap(ct, v)
            if k not in seen and (ct != 'u8' or 0 <= v < 256) and (ct != 's32' or -2**31 <= v < 2**31) and (ct != 'u64' or v >= 0) and (ct != 's64' or v < 2**63):
                seen.add(k)
                cs.append((e, k))
        if cs and full:
            decl += f'static s32 sw_{ct}_@({ct} x){{ switch(x){{ {" ".join(f"case {e}: return {i};" for i, (e, k) in enumerate(cs))} }} return -1; }}'
            body += ' '.join(f'O(sw_{ct}_@({spell(k, ct)}));' for e, k in cs)
            exp += list(range(len(cs)))
    return key, decl.replace('_@', '_' + re.sub(r'\W', lambda m: f'{ord(m.group()):x}', key)), body.replace('_@', '_' + re.sub(r'\W', lambda m: f'{ord(m.group()):x}', key)), exp


def int_items(th):
    for ta in INTS:
        for tb in INTS:
            for op in OPS:
                ex = []
                for a in VAL[ta]:
                    for b in VAL[tb]:
                        if op in ('<<', '>>') and not 0 <= b < 64:
                            continue
                        r = ev(op, ta, a, tb, b)
                        if r:
                            ex.append((f'{spell(a, ta)} {op} {spell(b, tb)}', *r))
                full = th or (ta, tb) in (('s32', 's32'), ('u32', 's32'), ('s64', 's32'), ('s32', 'u64'), ('u64', 'u64'), ('u8', 's8'))
                for i in range(0, len(ex), 24):
                    yield contexts(f'bin/{op}/{ta}/{tb}/{i}', ex[i:i + 24], full)
    for t in INTS:
        ex = []
        n, s = INTS[prom(t)]
        for v in VAL[t]:
            k = spell(v, t)
            p = prom(t)
            if not (s and v == -1 << (n - 1)):
                ex.append((f'-{k}', p, wrap(p, -v)))
            ex += [(f'~{k}', p, wrap(p, ~v)), (f'!{k}', 's32', int(not v)), (f'+{k}', p, v), (f'!!{k}', 's32', int(bool(v))), (f'~~{k}', p, v), (f'-~{k}', p, wrap(p, v + 1)) if not (s and v == (1 << (n - 1)) - 1) else ('0', 's32', 0)]
        yield contexts(f'un/{t}', ex)
        ex = []
        for u in INTS:
            for w in INTS:
                for v in VAL[t]:
                    ex.append((f'({w})({u}){spell(v, t)}', w, wrap(w, wrap(u, v))))
        for i in range(0, len(ex), 40):
            yield contexts(f'cast/{t}/{i}', ex[i:i + 40], th)
        for u in INTS:
            ex = []
            for a in VAL[t][:6]:
                for b in VAL[u][-4:]:
                    r = usual(t, u)
                    for c, k in (('1', a), ('0', b), ('2 > 1', a), ('1.5 < 0.5', b)):
                        ex.append((f'({c}) ? {spell(a, t)} : {spell(b, u)}', r, wrap(r, k)))
            for i in range(0, len(ex), 24):
                yield contexts(f'cond/{t}/{u}/{i}', [('(' + e + ')', t_, v) for e, t_, v in ex[i:i + 24]], False)
    # two operators: precedence, parentheses, mixed types
    V = [('s32', -1), ('s32', 3), ('u32', 2**31), ('s64', -2**40), ('u8', 200)] if not th else [('s32', -1), ('s32', 3), ('s32', 0), ('u32', 2**31), ('s64', -2**40), ('u8', 200), ('u64', M64), ('s16', -300)]
    PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
    for o1 in OPS:
        for o2 in OPS:
            ex = []
            for a, b, c in itertools.product(V, repeat=3):
                for shape in 'lrn':
                    sa, sb, sc = (spell(x[1], x[0]) for x in (a, b, c))
                    if shape == 'l' or (shape == 'n' and PREC[o1] >= PREC[o2]):
                        x = ev(o1, a[0], a[1], b[0], b[1])
                        r = x and ev(o2, x[0], x[1], c[0], c[1])
                    else:
                        x = ev(o2, b[0], b[1], c[0], c[1])
                        r = x and ev(o1, a[0], a[1], x[0], x[1])
                    if r is None:
                        continue
                    t = {'l': f'({sa} {o1} {sb}) {o2} {sc}', 'r': f'{sa} {o1} ({sb} {o2} {sc})', 'n': f'{sa} {o1} {sb} {o2} {sc}'}[shape]
                    ex.append((t, *r))
            for i in range(0, len(ex), 60):
                yield contexts(f'two/{o1}/{o2}/{i}', ex[i:i + 60], False)
    # the operand that is not evaluated may be anything
    ex = [('0 && 1 / 1', 's32', 0), ('1 || 0 / 1', 's32', 1), ('1 ? 2 : 3 / 1', 's32', 2), ('sizeof(s64) * 2', 'u64', 16), ('sizeof(s32[3][2])', 'u64', 24), ('_Alignof(double)', 'u64', 8), ('sizeof(1 + 1ll)', 'u64', 8), ("sizeof('a')", 'u64', 4), ('sizeof("abc")', 'u64', 4), ("'a' + 1", 's32', 98),
          ('(s32)1.9 + (s32)-1.9', 's32', 0), ('(u8)300.0f == 44 || 1', 's32', 1), ('(s64)(1e15 + 0.5)', 's64', 10**15), ('3 * 1.5 == 4.5', 's32', 1), ('!0.5', 's32', 0), ('0.0 || 0', 's32', 0), ('(0.1 + 0.2 > 0.3) + 1', 's32', 2), ('sizeof(1.0f * 1)', 'u64', 4), ('sizeof(1.0f * 1.0)', 'u64', 8), ('-1 < 0u', 's32', 0), ('-1ll < 0u', 's32', 1),
          ('(u8)-1 > 0', 's32', 1), ('(s8)255 < 0', 's32', 1), ('1 ? -1 : 0u', 'u32', 2**32 - 1), ('(1 ? -1 : 0u) > 0', 's32', 1), ('sizeof(1 ? (s8)1 : (s8)2)', 'u64', 4), ('(long)1 << 31 >> 31 != 7', 's32', 1) if 0 else ('1l << 30', 'long', 1 << 30), ("'\\377' < 0", 's32', 1), ("L'\\xffff' > 0", 's32', 1)]
    yield contexts('misc', ex)


def float_items():
    """floating constants: folded by the compiler against the reference's folding and against run-time evaluation"""
    for ta in FLT + ['s32', 'u64', 's64', 'u8']:
        for tb in FLT + ['s32', 'u64', 's64', 'u8']:
            if ta not in FLT and tb not in FLT:
                continue
            sa = FV.get(ta) or [spell(v, ta) for v in VAL[ta]]
            sb = FV.get(tb) or [spell(v, tb) for v in VAL[tb]]
            r = 'double' if 'double' in (ta, tb) else 'float'
            for op in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!='):
                ex = [f'{a} {op} {b}' for a in sa for b in sb if not (op == '/' and re.fullmatch(r'(\(\w+\))?0(\.0f?|u|ull|ll)?', b))]
                for i in range(0, len(ex), 40):
                    es = ex[i:i + 40]
                    key = f'f/{ta}/{op}/{tb}/{i}'
                    if op in '+-*/':
                        f = 'OF' if r == 'float' else 'OD'
                        yield key, f'static {r} g_@[] = {{ {", ".join(es)} }}; static double h_@[] = {{ {", ".join(es)} }};', f'for(s32 i = 0; i < {len(es)}; i++){{ {f}(g_@[i]); OD(h_@[i]); }}' + ' '.join(f'{f}({e}); O(sizeof({e}));' for e in es), 4 * len(es)
                    else:
                        yield key, f'static s32 g_@[] = {{ {", ".join(es)} }};', f'for(s32 i = 0; i < {len(es)}; i++) O(g_@[i]);' + ' '.join(f'O({e}); O(({e}) ? 5 : 6);' for e in es), 3 * len(es)
    for t in FLT:
        ok = {'_Bool': lambda v: True, **{k: (lambda v, n=n, s=s: (-(1 << (n - 1)) if s else 0) <= int(v) < (1 << (n - s))) for k, (n, s) in INTS.items() if k != '_Bool'}}
        for u in INTS:
            es = [f'({u}){v}' for v in FV[t] if ok[u](float(v.rstrip('f')))]
            yield f'f2i/{t}/{u}', f'static {u} g_@[] = {{ {", ".join(es)} }};', ' '.join(f'O({e}); O(g_@[{i}]); O(({e}) + w_ * 0);' for i, e in enumerate(es)), 3 * len(es)
            es = [f'({t}){spell(v, u)}' for v in VAL[u]]
            yield f'i2f/{t}/{u}', f'static {t} g_@[] = {{ {", ".join(es)} }}; static {t} h_@[] = {{ {", ".join(spell(v, u) for v in VAL[u])} }};', ' '.join(f'OD({e}); OD(g_@[{i}]); OD(h_@[{i}]);' for i, e in enumerate(es)), 3 * len(es)
        es = [f'{o}{v}' for v in FV[t] if v[0] != '-' for o in ('-', '+', '- -', '!', '!!')] + [f'({a}){v}' for v in FV[t] for a in FLT if not (a == 'float' and v in ('1e200', '1.5e-300'))]
        yield f'fun/{t}', f'static double g_@[] = {{ {", ".join(es)} }};', ' '.join(f'OD({e}); OD(g_@[{i}]); O(sizeof({e}));' for i, e in enumerate(es)), 3 * len(es)


def pp_items(th):
    """#if evaluates in intmax_t/uintmax_t"""
    L = [('0', 0, 0), ('1', 1, 0), ('3', 3, 0), ('-1', -1, 0), ('63', 63, 0), ('2147483647', 2**31 - 1, 0), ('4294967296', 2**32, 0), ('9223372036854775807', 2**63 - 1, 0), ('0u', 0, 1), ('1U', 1, 1), ('0xffffffff', 2**32 - 1, 0), ('0xffffffffffffffff', M64, 1), ('18446744073709551615u', M64, 1), ('(-9223372036854775807 - 1)', -2**63, 0), ("'a'", 97, 0), ('undefined_name', 0, 0), ('0x80000000', 2**31, 0), ('010', 8, 0), ('2ull', 2, 1), ('5L', 5, 0)]
    ty = ['s64', 'u64']

    def lit(t, v):
        return f'{v}u' if t == 'u64' else str(v) if v > -2**63 else '(-9223372036854775807 - 1)'
    rows = []
    for a, va, ua in L:
        for b, vb, ub in L:
            for op in OPS:
                if op in ('<<', '>>') and not 0 <= vb < 64:
                    continue
                r = ev(op, ty[ua], va, ty[ub], vb)
                if r is None:
                    continue
                t, v = r
                t = 'u64' if t == 'u64' else 's64'
                rows.append((f'{a} {op} {b}', t, v))
    for a, va, ua in L:
        t = ty[ua]
        if not (va == -2**63):
            rows.append((f'-{a}' if a[0] != '-' else f'- {a}', t, wrap(t, -va)))
        rows += [(f'~{a}', t, wrap(t, ~va)), (f'!{a}', 's64', int(not va)), (f'+{a}', t, va), (f'1 ? {a} : 0', t, va), (f'0 ? 7 : {a}', t, va), (f'1 ? {a} : 0u', 'u64', va & M64)]
    S = [('1', 1, 0), ('-2', -2, 0), ('3u', 3, 1), ('0', 0, 0), ('7', 7, 0)]
    PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
    for o1, o2 in itertools.product(OPS, OPS):
        for a, b, c in itertools.product(S, repeat=3):
            if PREC[o1] >= PREC[o2]:
                x = ev(o1, ty[a[2]], a[1], ty[b[2]], b[1])
                x = x and (('u64' if x[0] == 'u64' else 's64'), x[1])
                r = x and ev(o2, x[0], x[1], ty[c[2]], c[1])
            else:
                x = ev(o2, ty[b[2]], b[1], ty[c[2]], c[1])
                x = x and (('u64' if x[0] == 'u64' else 's64'), x[1])
                r = x and ev(o1, ty[a[2]], a[1], x[0], x[1])
            if r:
                rows.append((f'{a[0]} {o1} {b[0]} {o2} {c[0]}', 'u64' if r[0] == 'u64' else 's64', r[1]))
    # short circuit: the other operand is not evaluated
    rows += [('0 && (1 / 0)', 's64', 0), ('1 || (1 % 0)', 's64', 1), ('1 ? 2 : (1 / 0)', 's64', 2), ('0 ? (1 / 0) : 4', 's64', 4), ('defined X', 's64', 0), ('defined(D7)', 's64', 1), ('!defined(D7) || D7 == 7', 's64', 1), ('D7 * D7', 's64', 49), ('F(2) + F(D7)', 's64', 11), ('(D7)', 's64', 7), ('D7 > 6 ? D7 : 1', 's64', 7), ('1 ? 2 : 0 ? 3 : 4', 's64', 2), ('0 ? 1 ? 2 : 3 : 4', 's64', 4), ('(1 ? 0 : 1) ? 5 : 6', 's64', 6)]
    for i in range(0, len(rows), 120):
        body, exp = '', []
        for e, t, v in rows[i:i + 120]:
            body += f'\n#if ({e}) == {lit(t, v)}\nO(1);\n#else\nO(2);\n#endif\n#if {e}\nO(3);\n#elif ({e}) + 1\nO(4);\n#else\nO(5);\n#endif\n#if (({e}) * 0 - 1) < 0\nO(6);\n#else\nO(7);\n#endif\n'
            exp += [1, 3 if v else 4, 6 if t == 's64' else 7]
        yield f'if/{i}', '', body, exp


def ptr_items():
    """arithmetic on constant pointers scales by the pointee size"""
    TY = {'char': 1, 'short': 2, 'int': 4, 'long long': 8, 'double': 8, 'int *': 8, 'struct P3 { char a[3]; }': 3, 'struct P20 { int a[5]; }': 20, 'float': 4}
    NS = ['0', '1', '2', '-1', '3u', '-2ll', '5ull', '(char)4', '(short)-3', "'a'", 'E3']
    NV = [0, 1, 2, -1, 3, -2, 5, 4, -3, 97, 3]
    for t, sz in TY.items():
        u = t.split('{')[0].strip() if '{' in t else t
        dcl = (t + '; ' if '{' in t else '').replace('P', 'P@').replace('P@', 'P_@')
        u = u.replace('P', 'P_@')
        body, es, exp = '', [], []
        for p in (0, 64, 0x1000, 0x7fff0000):
            for n, v in zip(NS, NV):
                for e, r in ((f'({u} *){p} + {n}', p + v * sz), (f'{n} + ({u} *){p}', p + v * sz), (f'({u} *){p} - {n}', p - v * sz), (f'&(({u} *){p})[{n}]', p + v * sz), (f'({u} *){p} + {n} + 1', p + (v + 1) * sz), (f'({u} *){p} - 1 - ({n})', p - (1 + v) * sz)):
                    es.append(e)
                    exp.append(r)
        for k in range(0, len(es), 24):
            ee, rr = es[k:k + 24], exp[k:k + 24]
            yield f'ptr/{u}/{k}'.replace('_@', ''), dcl + 'enum { E3_@ = 3 }; ' + f'static void *g_@[] = {{ {", ".join(ee)} }};'.replace('E3', 'E3_@'), 'enum { E3 = 3 }; ' + f'for(s32 i = 0; i < {len(ee)}; i++) O(g_@[i]); ' + ' '.join(f'O({e}); ' for e in ee), rr + rr



def path_items():
    """address constants: every member/element path of depth <= 4 below a constant pointer (offsetof forms)"""
    def trees(n):
        yield 'int'
        yield 'char'
        if n:
            for t in trees(n - 1):
                if not (t == 'char' and n > 2):
                    yield ('a', t)
                    yield ('s', t)
    def size(t):
        if t == 'int':
            return 4, 4
        if t == 'char':
            return 1, 1
        s, a = size(t[1])
        if t[0] == 'a':
            return 3 * s, a
        return (a + s + a), a          # struct { char pad; T m; char q; } rounded
    def lay(t):
        if t in ('int', 'char'):
            return size(t)
        s, a = lay(t[1])
        if t[0] == 'a':
            return 3 * s, a
        off = (1 + a - 1) // a * a
        return (off + s + 1 + a - 1) // a * a, a
    def decl(t, nm):
        if t in ('int', 'char'):
            return f'{t} {nm}'
        if t[0] == 'a':
            return decl(t[1], nm + '[3]')
        return 'struct { char pad; ' + decl(t[1], 'm') + '; char q; } ' + nm
    def paths(t, base, off, e):
        yield e, off, lay(t)[0]
        if t in ('int', 'char'):
            return
        if t[0] == 'a':
            s = lay(t[1])[0]
            for i in (0, 2):
                yield from paths(t[1], base, off + i * s, f'{e}[{i}]')
            yield from paths(t[1], base, off + s, f'(*({e} + 1))')
        else:
            a = lay(t[1])[1]
            o = (1 + a - 1) // a * a
            yield from paths(t[1], base, off + o, e + '.m')
            yield e + '.q', off + o + lay(t[1])[0], 1
    for k, t in enumerate(trees(4)):
        s, a = lay(t)
        o = (1 + a - 1) // a * a
        T = f'struct T_@ {{ char c; {decl(t, "t")}; }}'
        tot = (o + s + a - 1) // a * a
        for root, base in (('((struct T_@ *)0)->t', 0), ('(*(struct T_@ *)4096).t', 4096), ('((struct T_@ *)64)[2].t', 64 + 2 * tot), ('(*((struct T_@ *)64 + 1)).t', 64 + tot)):
            ps = list(paths(t, base, base + o, root))
            es = [f'(u64)&{e}' for e, _, _ in ps] + [f'sizeof({e})' for e, _, _ in ps] + [f'(u64)(&{e} + 1)' for e, _, _ in ps]
            rs = [v for _, v, _ in ps] + [z for _, _, z in ps] + [v + z for _, v, z in ps]
            for q in range(0, len(es), 40):
                yield f'path/{k}/{root.replace("_@", "")}/{q}', T + f'; static u64 g_@[] = {{ {", ".join(es[q:q + 40])} }};', f'for(s32 i = 0; i < {len(es[q:q + 40])}; i++) O(g_@[i]); ' + ' '.join(f'O({e});' for e in es[q:q + 40]), rs[q:q + 40] * 2


def body(c):
    d = Diff(c, head=HEAD + 'static volatile s32 w_;\n#define D7 7\n#define F(x) ((x) + 1)\n', batch=24)

    def mk(k, dc, b, e):
        return Item(k, b, dc, len(e), e)
    its = [mk(*t) for t in int_items(c.thorough)] + [mk(*t) for t in pp_items(c.thorough)] + [mk(k, dc.replace('_@', f'_{i}'), b.replace('_@', f'_{i}'), e) for i, (k, dc, b, e) in enumerate(itertools.chain(ptr_items(), path_items()))]
    c.cov['expressions'] = sum(len(i.expect) for i in its)
    d.run(its)
    fl = uniq(list(float_items()))
    d.run(fl)
    c.sample({'key': its[100].key, 'decl': its[100].decl[:500], 'body': its[100].body[:300]})
    c.sample({'key': fl[10].key, 'decl': fl[10].decl[:500]})
    c.cov['exhaustive'] = True
    c.cov['rule'] = ('every binary operator x pair of the 11 integer types x boundary value pairs, every unary operator, every double cast, every conditional, every pair of operators (left, right and unparenthesised) over a value set: as static initialiser, type (sizeof and signedness), _Static_assert, array size, enumerator, bit-field width, designator, '
                     'case label and folded run-time operand; the same for #if in 64 bits; floating operators and conversions. Integer oracle: an evaluator of the C rules in the check; floating oracle: clang-18. Non-trivial: expected observations not all zero.')
    c.assumptions += ['floating constants: clang-18 folds IEEE-754 binary32/64 correctly', 'NaN excluded (hlc itself is built with -ffast-math here)']


if __name__ == '__main__':
    main('C02', 'exploration', body)
