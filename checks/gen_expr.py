"""Bounded-exhaustive expression space: every operator x operand type pair x operand form, over boundary values."""
from check import Item

INTS = ['_Bool', 's8', 'u8', 's16', 'u16', 's32', 'u32', 'long', 'unsigned long', 's64', 'u64']
FLT = ['float', 'double']
TYPES = INTS + FLT
VALS = {
    '_Bool': '0,1', 's8': '0,1,-1,2,7,-8,127,-128,100', 'u8': '0,1,2,7,127,128,200,255',
    's16': '0,1,-1,3,255,-256,32767,-32768,1000', 'u16': '0,1,3,255,256,32768,65535,40000',
    's32': '0,1,-1,5,-7,255,65536,2147483647,-2147483647-1,123456789', 'u32': '0,1,5,255,65535,65536,2147483648u,4294967295u,3000000000u',
    's64': '0,1,-1,9,-10,255,65536,4294967296ll,-4294967297ll,9223372036854775807ll,-9223372036854775807ll-1,1234567890123456789ll',
    'u64': '0,1,9,255,65536,4294967295ull,4294967296ull,9223372036854775808ull,18446744073709551615ull,12345678901234567890ull',
    'float': '0.0f,1.0f,-1.0f,0.5f,-2.75f,100.25f,-30000.5f,16777216.0f,3.0e9f,1.0e18f,1.5e-30f',
    'double': '0.0,1.0,-1.0,0.5,-2.75,100.25,-30000.5,4294967296.0,3.0e9,1.0e18,1.5e-300',
}
VALS['long'] = VALS['s32']
VALS['unsigned long'] = VALS['u32']
SZ = {'_Bool': 1, 's8': 8, 'u8': 8, 's16': 16, 'u16': 16, 's32': 32, 'u32': 32, 'long': 32, 'unsigned long': 32, 's64': 64, 'u64': 64}
SIGNED = {'s8', 's16', 's32', 'long', 's64'}
# values representable after conversion (float -> int is otherwise undefined)
SAFE_F = {'_Bool': '0.0,0.5,1.0,-1.0,3.5', 's8': '0.0,1.0,-1.0,0.5,-2.75,100.25,-100.75', 'u8': '0.0,1.0,0.5,2.75,100.25,200.75', 's16': '0.0,1.0,-1.0,-2.75,100.25,-30000.5,30000.75',
          'u16': '0.0,1.0,2.75,100.25,30000.5,60000.75', 's32': '0.0,1.0,-1.0,-2.75,100.25,-30000.5,2000000000.0,-2000000000.0', 'u32': '0.0,1.0,2.75,100.25,30000.5,2000000000.0,4000000000.0,3000000128.0',
          's64': '0.0,1.0,-1.0,-2.75,100.25,-30000.5,3.0e9,-3.0e9,1.0e18,-1.0e18', 'u64': '0.0,1.0,2.75,100.25,30000.5,3.0e9,1.0e18,8.0e18'}
SAFE_F['long'] = SAFE_F['s32']
SAFE_F['unsigned long'] = SAFE_F['u32']


def tid(t):
    return t.replace(' ', '_')


def tables():
    s = ''
    for t in TYPES:
        v = VALS[t]
        s += f'static {t} v_{tid(t)}[] = {{{v}}};\n#define n_{tid(t)} {len(v.split(","))}\n'
    for t in INTS:
        for f in FLT:
            v = SAFE_F[t]
            if f == 'float':
                v = ','.join(x + 'f' for x in v.split(','))
            s += f'static {f} c_{f}_{tid(t)}[] = {{{v}}};\n#define nc_{f}_{tid(t)} {len(v.split(","))}\n'
    s += '''static u64 H(u64 h, u64 r){ return (h ^ r) * 0x9E3779B97F4A7C15ull + (h >> 29); }
static u64 fb(float f){ union { float f; u32 u; } x; x.f = f; if((x.u & 0x7fffffff) > 0x7f800000) return 0x7fc00000; return x.u; }
static u64 db(double f){ union { double f; u64 u; } x; x.f = f; if((x.u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull) return 0x7ff8ull << 48; return x.u; }
'''
    return s


def prom(t):
    if t in ('_Bool', 's8', 'u8', 's16', 'u16'):
        return 's32'
    return {'long': 's32', 'unsigned long': 'u32'}.get(t, t)


RANK = {'s32': 1, 'u32': 2, 's64': 3, 'u64': 4, 'float': 5, 'double': 6}


def arith(a, b):
    a, b = prom(a), prom(b)
    return a if RANK[a] >= RANK[b] else b


def rec(t, e):
    """expression recording a value of (C) type class t"""
    if t == 'float':
        return f'h = H(h, fb({e}));'
    if t == 'double':
        return f'h = H(h, db({e}));'
    return f'h = H(h, (u64)({e}));'


ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['<', '<=', '>', '>=', '==', '!=']
LOGIC = ['&&', '||']


def guard(op, a, b, A='a', B='b'):
    """condition under which a op b is defined (or conventionally wraps)"""
    r = arith(a, b)
    if op in ('/', '%'):
        g = f'({B}) != 0'
        if r in ('s32', 's64') :
            g += f' && !(({r})({B}) == -1)'
        return g
    if op in ('<<', '>>'):
        w = 64 if prom(a) in ('s64', 'u64') else 32
        return f'({B}) >= 0 && ({B}) < {w}'
    return '1'


def valid(op, a, b):
    if op in ('%', '&', '|', '^', '<<', '>>') and (a in FLT or b in FLT):
        return False
    return True


# operand forms: (name, declaration for value of type T named x initialised from e, expression)
FORMS = {
    'loc': lambda T, x, e: (f'{T} {x} = {e};', x, ''),
    'glob': lambda T, x, e: (f'g_{x} = {e};', f'g_{x}', f'static {T} g_{x};'),
    'ptr': lambda T, x, e: (f'{T} {x}_v = {e}; {T} *{x} = &{x}_v;', f'*{x}', ''),
    'arr': lambda T, x, e: (f'{T} {x}_v[5]; s32 {x}_i = 3; {x}_v[2] = 0; {x}_v[4] = 1; {x}_v[{x}_i] = {e};', f'{x}_v[{x}_i]', ''),
    'mem': lambda T, x, e: (f'struct {{ s8 p; {T} m; s8 q; }} {x}_s; {x}_s.p = -1; {x}_s.q = -1; {x}_s.m = {e};', f'{x}_s.m', ''),
    'pmem': lambda T, x, e: (f'struct S_{x} {x}_s; struct S_{x} *{x}_p = &{x}_s; {x}_s.m = {e};', f'{x}_p->m', f'struct S_{x} {{ s16 p; {T} m; s16 q; }};'),
    'call': lambda T, x, e: (f'{T} {x}_v = {e};', f'id_{x}({x}_v)', f'static {T} id_{x}({T} v){{ return v; }}'),
    'cast': lambda T, x, e: (f'{T} {x}_v = {e};', f'({T}){x}_v', ''),
    'vol': lambda T, x, e: (f'volatile {T} {x} = {e};', x, ''),
    'asg': lambda T, x, e: (f'{T} {x}_v = {e}; {T} {x}_t;', f'({x}_t = {x}_v)', ''),
    'deep': lambda T, x, e: (f'{T} {x} = {e}; s32 {x}_z = 0;', f'({x}_z ? {x} : (0, {x}))', ''),
}


def loop2(a, b, inner):
    return f'for(s32 i = 0; i < n_{tid(a)}; i++) for(s32 j = 0; j < n_{tid(b)}; j++){{ {inner} }}'


def binary_items(forms_l, forms_r, types_a=TYPES, types_b=TYPES, ops=None):
    for a in types_a:
        for b in types_b:
            for op in ops or (ARITH + CMP + LOGIC):
                if not valid(op, a, b):
                    continue
                if op in ARITH:
                    t = prom(a) if op in ('<<', '>>') else arith(a, b)
                else:
                    t = 's32'
                for fl in forms_l:
                    for fr in forms_r:
                        n = f'{tid(a)}_{tid(b)}'
                        da, ea, ga = FORMS[fl](a, 'a', f'v_{tid(a)}[i]')
                        db_, eb, gb = FORMS[fr](b, 'b', f'v_{tid(b)}[j]')
                        body = 'u64 h = 0;\n' + loop2(a, b, f'{da} {db_} if({guard(op, a, b, ea, eb)}) {{ {rec(t, f"{ea} {op} {eb}")} }}') + '\nO(h);'
                        yield ('bin', op, a, b, fl, fr), ga + gb, body, t


def mk(key, decl, body, nobs=1):
    return Item('/'.join(map(str, key)), body, decl, nobs)


def localize(items):
    """make file-scope helper names unique per item"""
    import re
    out = []
    for k, (key, decl, body) in enumerate(items):
        for nm in ('g_a', 'g_b', 'S_a', 'S_b', 'id_a', 'id_b'):
            decl = re.sub(rf'\b{nm}\b', f'{nm}{k}', decl)
            body = re.sub(rf'\b{nm}\b', f'{nm}{k}', body)
        out.append(mk(key, decl, body))
    return out


def compound_items(forms=('loc',), types_a=TYPES, types_b=TYPES):
    for a in types_a:
        for b in types_b:
            for op in ARITH:
                if not valid(op, a, b) or (a == '_Bool' and op not in '&|^'):  # the compiler documents (by a dedicated error) that _Bool only supports these
                    continue
                r = prom(a) if op in ('<<', '>>') else arith(a, b)
                if r in FLT and a not in FLT:
                    # int op= float: keep the result representable
                    src, n = f'c_{b}_{tid(a)}', f'nc_{b}_{tid(a)}'
                    if a == '_Bool':
                        cond = '1'
                    else:
                        lo, hi = (0, 2**SZ[a] - 1) if a not in SIGNED else (-2**(SZ[a] - 1), 2**(SZ[a] - 1) - 1)
                        cond = f'(double)a {op} (double)b > {float(lo) + 0.0} && (double)a {op} (double)b < {min(float(hi), 9.0e18)} && (b != 0)'
                    loop = f'for(s32 i = 0; i < n_{tid(a)}; i++) for(s32 j = 0; j < {n}; j++){{ {a} a = v_{tid(a)}[i]; {b} b = {src}[j]; if({cond}){{ h = H(h, (u64)(a {op}= b)); h = H(h, (u64)a); }} }}'
                    yield ('cmp=', op, a, b, 'loc'), '', 'u64 h = 0;\n' + loop + '\nO(h);'
                    continue
                for f in forms:
                    da, ea, ga = FORMS[f](a, 'a', f'v_{tid(a)}[i]')
                    inner = f'{da} {b} b = v_{tid(b)}[j]; if({guard(op, a, b, ea, "b")}) {{ {rec(a, f"{ea} {op}= b")} {rec(a, ea)} }}'
                    yield ('cmp=', op, a, b, f), ga, 'u64 h = 0;\n' + loop2(a, b, inner) + '\nO(h);'


def conv_items():
    for a in TYPES:
        for b in TYPES:
            n, src = f'n_{tid(a)}', f'v_{tid(a)}'
            if a in FLT and b in INTS:
                n, src = f'nc_{a}_{tid(b)}', f'c_{a}_{tid(b)}'
            for how in ('cast', 'init', 'assign', 'ret', 'arg', 'member', 'elem', 'cond', 'chain'):
                decl = ''
                if how == 'cast':
                    st = rec(b, f'({b})a')
                elif how == 'init':
                    st = f'{b} b = a; ' + rec(b, 'b')
                elif how == 'assign':
                    st = f'{b} b; ' + rec(b, 'b = a')
                elif how == 'ret':
                    decl = f'static {b} g_a({a} x){{ return x; }}'
                    st = rec(b, 'g_a(a)')
                elif how == 'arg':
                    decl = f'static {b} g_a({b} x){{ return x; }}'
                    st = rec(b, 'g_a(a)')
                elif how == 'member':
                    st = f'struct {{ s8 x; {b} m; s8 y; }} s; s.x = 1; s.y = 2; s.m = a; ' + rec(b, 's.m') + 'h = H(h, s.x + s.y);'
                elif how == 'elem':
                    st = f'{b} s[3]; s[0] = 1; s[2] = 1; s[1] = a; ' + rec(b, 's[1]') + rec(b, 's[0]') + rec(b, 's[2]')
                elif how == 'cond':
                    st = 'h = H(h, a ? 3 : 5); if(a) h = H(h, 1); else h = H(h, 2); h = H(h, !a); while(a){ h = H(h, 9); break; } h = H(h, a && 1); h = H(h, 0 || a);'
                    if b != a:
                        continue
                else:
                    st = f'{b} b = ({b})a; ' + ''.join(rec(c, f'({c})(u8)b') if b in INTS else '' for c in TYPES)
                    if b in FLT:
                        continue
                body = f'u64 h = 0; for(s32 i = 0; i < {n}; i++){{ {a} a = {src}[i]; {st} }} O(h);'
                yield ('conv', how, a, b), decl, body


def unary_items(forms):
    for a in TYPES:
        for f in forms:
            for op in ('-', '~', '!', '+', '++x', '--x', 'x++', 'x--', '&*', 'sizeof', 'comma', 'tern'):
                if op == '~' and a in FLT:
                    continue
                if f in ('call', 'cast', 'deep', 'asg') and op in ('++x', '--x', 'x++', 'x--', '&*'):
                    continue
                if a == '_Bool' and op in ('--x', 'x--'):
                    pass
                da, ea, ga = FORMS[f](a, 'a', f'v_{tid(a)}[i]')
                p = prom(a)
                if op in '-~+':
                    st = rec(p, f'{op}{ea}' if not ea.startswith('(') else f'{op}({ea})')
                elif op == '!':
                    st = rec('s32', f'!{ea}')
                elif op in ('++x', '--x'):
                    st = rec(a, f'{op[:2]}{ea}' if f != 'ptr' else f'{op[:2]}({ea})') + rec(a, ea)
                elif op in ('x++', 'x--'):
                    st = rec(a, f'({ea}){op[1:]}') + rec(a, ea)
                elif op == '&*':
                    st = rec(a, f'*&({ea})')
                elif op == 'sizeof':
                    st = rec('s32', f'sizeof({ea}) + sizeof(-({ea})) * 16 + sizeof({a})*256') 
                elif op == 'comma':
                    st = rec(a, f'(h += 3, {ea})')
                else:
                    st = rec(p, f'i & 1 ? {ea} : {ea}') + rec(arith(a, 's64'), f'i & 1 ? {ea} : 7ll')
                yield ('un', op, a, f), ga, f'u64 h = 0; for(s32 i = 0; i < n_{tid(a)}; i++){{ {da} {st} }} O(h);'


# ---------------------------------------------------------------- trees: evaluation order, register pressure, nesting
SHAPES4 = ['((A{0}B){1}C){2}D', '(A{0}(B{1}C)){2}D', '(A{0}B){1}(C{2}D)', 'A{0}((B{1}C){2}D)', 'A{0}(B{1}(C{2}D))', 'A{0}B{1}C{2}D']
TREE_OPS_I = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '==', '!=', '>=', '&&', '||']
TREE_OPS_F = ['+', '-', '*', '/', '<', '==', '&&', '||']


def tree_items(types=('s32', 'u32', 's64', 'u64', 's8', 'u16', 'double', 'float'), leaf='loc', ops_i=TREE_OPS_I, shapes=SHAPES4):
    """every shape of four leaves x every operator triple; divisors and shift amounts are masked to be defined (x | 1, x & 7)"""
    for t in types:
        f = t in FLT
        ops = TREE_OPS_F if f else ops_i
        for si, sh in enumerate(shapes):
            for o0 in ops:
                for o1 in ops:
                    st = ''
                    for o2 in ops:
                        e = tree_expr(sh, (o0, o1, o2), t)
                        if e is None:
                            continue
                        for k, v in enumerate('ABCD'):
                            e = e.replace(v, leaf_expr(leaf, 'abcd'[k]))
                        st += f'O{"D" if f else ""}({e});\n'
                    if not st:
                        continue
                    va = {'s32': '77,-1000,3,5', 'u32': '4000000000u,70000,3,9', 's64': '-5000000000ll,77,3,12', 'u64': '18000000000000000000ull,5000000000ull,7,3', 's8': '-100,100,3,7',
                          'u16': '60000,300,7,5', 'double': '1.5,-2.25,0.5,8.0', 'float': '1.5f,-2.25f,0.5f,8.0f'}[t].split(',')
                    decl, pre = leaf_decl(leaf, t, va)
                    yield ('tree', t, si, o0, o1, leaf), decl, pre + st, len(ops)


def tree_expr(sh, ops, t):
    """make division and shifts defined by masking the right operand; None if the shape has no parentheses around a masked operand"""
    if sh == SHAPES4[5]:
        # precedence: only operators that are defined for all operands
        if any(o in ('/', '%', '<<', '>>') for o in ops):
            if t in FLT:
                return sh.format(*ops)
            for k, o in enumerate(ops):
                if o in ('/', '%'):
                    sh = sh.replace('ABCD'[k + 1], f'({"ABCD"[k + 1]} | 1)')
                elif o in ('<<', '>>'):
                    sh = sh.replace('ABCD'[k + 1], f'({"ABCD"[k + 1]} & 7)')
            # a shift amount may become a longer operand through precedence (a << b + c): keep those out
            for k, o in enumerate(ops):
                if o in ('<<', '>>') and k + 1 < 3 and ops[k + 1] in ('+', '-', '*', '/', '%'):
                    return None
            # INT_MIN / -1 and division by zero cannot occur: the divisor is a leaf | 1
        return sh.format(*ops)
    # structured: parse positions by recursion on the fixed shapes
    def m(o, e):
        if o == '/' and t in FLT:
            return f'({e} + 0.0)'
        if o in ('/', '%'):
            return f'({e} & 63 | 1)'
        if o in ('<<', '>>'):
            return f'({e} & 7)'
        return e
    i = SHAPES4.index(sh)
    o0, o1, o2 = ops
    if i == 0:
        return f'((A {o0} {m(o0, "B")}) {o1} {m(o1, "C")}) {o2} {m(o2, "D")}'
    if i == 1:
        return f'(A {o0} {m(o0, f"(B {o1} {m(o1, chr(67))})")}) {o2} {m(o2, "D")}'
    if i == 2:
        return f'(A {o0} {m(o0, "B")}) {o1} {m(o1, f"(C {o2} {m(o2, chr(68))})")}'
    if i == 3:
        return f'A {o0} {m(o0, f"((B {o1} {m(o1, chr(67))}) {o2} {m(o2, chr(68))})")}'
    return f'A {o0} {m(o0, f"(B {o1} {m(o1, f"(C {o2} {m(o2, chr(68))})")})")}'


def leaf_expr(leaf, v):
    return {'loc': v, 'call': f'f_{v}({v})', 'ptr': f'*{v}', 'arr': f'{v}[i]'}[leaf]


def leaf_decl(leaf, t, va):
    if leaf == 'loc':
        return '', ''.join(f'{t} {n} = {v};' for n, v in zip('abcd', va)) + '\n'
    if leaf == 'call':
        return '', ''.join(f'{t} {n} = {v};' for n, v in zip('abcd', va)) + '\n'
    if leaf == 'ptr':
        return '', ''.join(f'{t} {n}_ = {v}; {t} *{n} = &{n}_;' for n, v in zip('abcd', va)) + '\n'
    return '', 's32 i = 1;' + ''.join(f'{t} {n}[3]; {n}[0] = 9; {n}[1] = {v}; {n}[2] = 11;' for n, v in zip('abcd', va)) + '\n'


def pressure_items(depths, types=('s32', 'u64', 's8', 'double', 'float', 'u32', 's64')):
    """right-leaning chains of every depth: more live values than registers, with division / shift / call / comparison / assignment innermost"""
    for t in types:
        f = t in FLT
        S = 'OF' if t == 'float' else 'OD' if f else 'O'
        inner = {'u64f': f'({t})(double)(u64)x1', 'u64F': f'({t})(float)(u64)(x1 + x0)', 'fu64': f'({t})(u64)(double)x3', 'fu32': f'({t})(u32)(float)x3', 'leaf': 'x0', 'call': 'id(x0)', 'neg': '-x0', 'cmp': '(x0 < x1)', 'asgn': '(y = x1)', 'inc': 'y++', 'tern': '(x0 ? x1 : x2)', 'land': '(x0 && x1)', 'arr': 'ar[(s32)x0 & 3]', 'div': 'x3 / x1',
                 'call4': 'id4(x0, x1, x2, x3)', 'call6': 'id6(x0, x1, x2, x3, x4, x5)', 'cast': f'({t})(u8)(s32)x1', 'nest': 'id4(id(x0), x1, id4(x0, id(x1), x2, x3), id(x2))', 'sw': '(x0, x1)',
                 'tof': f'({t})((double)x0 + (float)x1)', 'struct': 'st(x0).b'}
        if not f:
            inner |= {'mod': 'x3 % x1', 'shl': 'x0 << (x1 & 7)', 'shr': 'x3 >> (x1 & 7)', 'not': '~x0', 'diveq': '(y /= x1)', 'shleq': '(y <<= (x1 & 3))', 'modeq': '(y %= x1)'}
        decl = f'static {t} id_@({t} x){{ return x; }} static {t} id4_@({t} a, {t} b, {t} c, {t} d){{ return a - b * 2 + c * 3 - d; }} static {t} id6_@({t} a, {t} b, {t} c, {t} d, {t} e, {t} f){{ return a - b * 2 + c * 3 - d + e * 5 - f; }}\nstruct st_@ {{ s32 a; {t} b; s64 c, d; }}; static struct st_@ stf_@({t} x){{ struct st_@ r; r.a = 1; r.b = x + 1; r.c = 2; r.d = 3; return r; }}\n'
        for nm, e in inner.items():
            for d in depths:
                for op in (('+', '-', '*', 'L-') if f else ('+', '-', '*', '^', '/', '<<', '>>', '%', 'L-', 'L^', 'L/', 'L<<')):
                    live = op[0] == 'L'     # every left operand is itself computed, so it occupies a register while the rest is evaluated
                    if live and not (1 < d < 10 or d == 16):
                        continue
                    if not live and d > 2 and d not in (5, 9, 13, 20, 39):
                        continue
                    key, op = op, op.lstrip('L')
                    vs = [f'x{i}' for i in range(6)]
                    body = ''.join(f'volatile {t} {v} = {k + 1};' for k, v in enumerate(vs)) + f'{t} y = 77; {t} ar[4]; ar[0] = 3; ar[1] = 5; ar[2] = 7; ar[3] = 9;'
                    x = e
                    for k in range(d):
                        l = vs[k % 6]
                        if live:
                            l = f'({l} + {vs[(k + 1) % 6]})'
                        elif k % 5 == 4:
                            l = f'({l} * {l})'
                        if op in ('/', '%'):
                            x = f'{l} * 100 {op} ({x} & 15 | 1)' if not f else x
                            x = f'({x})'
                        elif op in ('<<', '>>'):
                            x = f'({l} {op} ({x} & 3))'
                        else:
                            x = f'({l} {op} {x})'
                    body += f'{S}({x});{S}(y);'
                    body = body.replace('id4(', 'id4_@(').replace('id6(', 'id6_@(').replace('id(', 'id_@(').replace('st(', 'stf_@(')
                    yield ('press', t, nm, key, d), decl, body, 2


# ---------------------------------------------------------------- literal operands: immediates of every encoding size, for every storage form
LITS = ['0', '1', '(-1)', '2', '3', '7', '8', '10', '127', '128', '(-128)', '(-129)', '255', '256', '1000', '32767', '32768', '65535', '65536', '2147483647', '(-2147483647 - 1)', '2147483648u', '4294967295u', '4294967296ll', '(-4294967296ll)', '0x123456789abcll', '9223372036854775807ll', '(-9223372036854775807ll - 1)',
        '9223372036854775808ull', '18446744073709551615ull', "'a'", '(s8)-3', '(u8)200', '(u16)40000', '(s16)-5', '(_Bool)1', 'E_@', '(long)-7', '1.0f', '0.5', '(-2.0)', '3.0f', 'sizeof(int)']
LTYPE = {'9223372036854775807ll': 's64', '(-9223372036854775807ll - 1)': 's64', '9223372036854775808ull': 'u64', '18446744073709551615ull': 'u64', '4294967296ll': 's64', '(-4294967296ll)': 's64', '0x123456789abcll': 's64', '2147483648u': 'u32', '4294967295u': 'u32',
         '1.0f': 'float', '0.5': 'double', '(-2.0)': 'double', '3.0f': 'float', 'sizeof(int)': 'u64'}


def lit_items(forms, types=TYPES):
    for a in types:
        for f in forms:
            for li, l in enumerate(LITS):
                lt = LTYPE.get(l, 's32')
                da, ea, ga = FORMS[f](a, 'a', f'v_{tid(a)}[i]')
                st = ''
                for op in ARITH + CMP + LOGIC:
                    if not valid(op, a, lt):
                        continue
                    for x, y, tx, ty in ((ea, l, a, lt), (l, ea, lt, a)):
                        g = guard(op, tx, ty, x, y)
                        if op in ('/', '%') and y == l and (l == '0'):
                            continue
                        if op in ('<<', '>>') and y == l:
                            if lt in FLT or l.startswith('(-') or l == '(s8)-3' or l == '(s16)-5' or l == '(long)-7':
                                continue
                            w = 64 if prom(tx) in ('s64', 'u64') else 32
                            v = {"'a'": 97, 'E_@': 5, 'sizeof(int)': 4, '(u8)200': 200, '(u16)40000': 40000, '(_Bool)1': 1}.get(l)
                            if v is None:
                                v = int(l.rstrip('ul'), 0)
                            if v >= w:
                                continue
                        t = 's32' if op in CMP + LOGIC else prom(tx) if op in ('<<', '>>') else arith(tx, ty)
                        st += (f'if({g}) ' if g != '1' else '') + '{ ' + rec(t, f'{x} {op} {y}') + ' }\n'
                yield ('lit', a, f, li), ga + 'enum { E_@ = 5 };', f'u64 h = 0; for(s32 i = 0; i < n_{tid(a)}; i++){{ {da}\n{st} }} O(h);'
                if f in ('call', 'cast', 'deep', 'asg'):
                    continue
                st = ''
                reset = f'{ea} = v_{tid(a)}[i];'
                for op in ARITH:
                    if not valid(op, a, lt) or a == '_Bool' and op not in '&|^' or (op in ('/', '%') and l == '0'):
                        continue
                    if lt in FLT and a not in FLT:
                        if a != 's32' or op not in '+-*/':
                            continue
                        st += f'{ea} = (s32)(v_{tid(a)}[i] & 0xffff); ' + rec(a, f'{ea} {op}= {l}') + rec(a, ea) + '\n'
                        continue
                    if op in ('<<', '>>'):
                        if l.startswith('(-') or l in ('(s8)-3', '(s16)-5', '(long)-7') or lt in FLT:
                            continue
                        w = 64 if prom(a) in ('s64', 'u64') else 32
                        v = {"'a'": 97, 'E_@': 5, 'sizeof(int)': 4, '(u8)200': 200, '(u16)40000': 40000, '(_Bool)1': 1}.get(l)
                        if v is None:
                            v = int(l.rstrip('ul'), 0)
                        if v >= w:
                            continue
                    g = guard(op, a, lt, ea, l)
                    st += f'{reset} ' + (f'if({g}) ' if g != '1' else '') + '{ ' + rec(a, f'{ea} {op}= {l}') + rec(a, ea) + ' }\n' + f'{reset} ' + (f'if({g}) ' if g != '1' else '') + f'{{ {ea} {op}= {l}; ' + rec(a, ea) + ' }\n'
                if not (lt in FLT and a not in FLT):
                    st += f'{ea} = {l}; ' + rec(a, ea) + rec(a, f'{ea} = {l}') + '\n'
                yield ('litcmp', a, f, li), ga + 'enum { E_@ = 5 };', f'u64 h = 0; for(s32 i = 0; i < n_{tid(a)}; i++){{ {da}\n{st} }} O(h);'


# ---------------------------------------------------------------- special floating-point values: -0.0, infinities, NaN, denormals, values of at least 2^63
SPEC = {'double': '0,0x8000000000000000,0x3ff0000000000000,0xbff0000000000000,0x7ff0000000000000,0xfff0000000000000,0x7ff8000000000000,0xfff8000000000001,1,0x8000000000000001,0x7fefffffffffffff',
        'float': '0,0x80000000,0x3f800000,0xbf800000,0x7f800000,0xff800000,0x7fc00000,0xffc00001,1,0x80000001,0x7f7fffff'}
BIG = {'double': ['0.0', '1.5', '4294967295.5', '4294967296.0', '9223372036854774784.0', '9223372036854775808.0', '9223372036854777856.0', '13835058055282163712.0', '18446744073709549568.0', '0.99', '9007199254740993.0'],
       'float': ['0.0f', '1.5f', '4294967296.0f', '9223371487098961920.0f', '9223372036854775808.0f', '9223373136366403584.0f', '13835058055282163712.0f', '18446742974197923840.0f', '0.99f', '16777216.0f']}


def fspec_items(forms):
    pre = ''.join(f'static {t} w_{t}(u64 i){{ static {u} v[] = {{{SPEC[t]}}}; union {{ {u} u; {t} f; }} x; x.u = v[i]; return x.f; }}\nstatic {t} q_{t}(u64 i){{ static {t} v[] = {{{",".join(BIG[t])}}}; return v[i]; }}\n' for t, u in (('float', 'u32'), ('double', 'u64')))
    out = []
    cond = {'if': 'if({e}) c = 1; else c = 2;', 'ifnot': 'if(!({e})) c = 1; else c = 2;', 'not': 'c = !({e});', 'notnot': 'c = !!({e});', 'tern': 'c = ({e}) ? 3 : 4;', 'and': 'c = ({e}) && i;', 'andr': 'c = (i + 1) && ({e});', 'or': 'c = ({e}) || (i & 1);', 'orr': 'c = (i & 1) || ({e});', 'while': 'c = 5; while({e}){ c = 6; break; }',
            'for': 'c = 7; for(;{e};){ c = 8; break; }', 'do': '{ s32 n = 0; do { c = 9 + n; if(n++) break; } while({e}); }', 'bool': '_Bool b = {e}; c = b;', 'cast': 'c = (_Bool)({e});', 'arg': 'c = tb(({e}));', 'boolasg': '_Bool b; b = ({e}); c = b + 5 * !b;', 'elem': 'struct { char x; _Bool b[2]; } s = {0}; s.b[1] = ({e}); c = s.b[1] + 2 * s.b[0];',
            'init': 'struct { char x; _Bool b; } s = {3, {e}}; c = s.b + s.x;', 'andand': 'if(({e}) && ({e}) || i > 30) c = 1; else c = 2;', 'nested': 'c = (({e}) ? 1 : 2) + 4 * (({e}) || 0) + 8 * !({e});', 'orbool': '_Bool b = i & 1; b |= ({e}) != 0; c = b;', 'ret': 'c = tr_{t}({e});', 'sw': 'switch(!({e})){ case 0: c = 1; break; default: c = 2; }'}
    pre += 'static s32 tb(_Bool b){ return b ? 11 : 12; }\nstatic _Bool tr_float(float f){ return f; }\nstatic _Bool tr_double(double f){ return f; }\n'
    for t in FLT:
        n = len(SPEC[t].split(','))
        for f in forms:
            da, ea, ga = FORMS[f](t, 'a', f'w_{t}(i)')
            for k, code in cond.items():
                out.append((('fspec', 'cond', t, f, k), ga, f'u64 h = 0; for(s32 i = 0; i < {n}; i++){{ {da} s32 c = 0; {{ {code.replace("{e}", ea).replace("{t}", t)} }} h = H(h, c); }} O(h);'))
            for f2 in forms:
                if f != 'loc' and f2 != 'loc':
                    continue
                for t2 in FLT:
                    db_, eb, gb = FORMS[f2](t2, 'b', f'w_{t2}(j)')
                    st = ''.join(f'h = H(h, ({ea} {op} {eb}) * 7 + 1); if({ea} {op} {eb}) h = H(h, 3); if(!({ea} {op} {eb})) h = H(h, 5); h = H(h, !({ea} {op} {eb}) ? 6 : 7); h = H(h, ({ea} {op} {eb}) && ({eb} {op} {ea})); {{ _Bool z = {ea} {op} {eb}; h = H(h, z); }} ' for op in ('<', '>', '<=', '>=', '==', '!='))
                    out.append((('fspec', 'cmp', t, f, t2, f2), ga + gb, f'u64 h = 0; for(s32 i = 0; i < {n}; i++) for(s32 j = 0; j < {n}; j++){{ {da} {db_} {st} }} O(h);'))
            # whole expressions: several live values around a comparison
            out.append((('fspec', 'live', t, f), ga, f'u64 h = 0; for(s32 i = 0; i < {n}; i++) for(s32 j = 0; j < {n}; j++){{ {da} {t} x = w_{t}(j), y = 2; s32 k = (i + 1) * ((x + y) + ({ea} == x) * (y + ({ea} != y)) > (x * (y < {ea})) + ((x <= {ea}) ? y : 3)) + (j << ({ea} == x)); h = H(h, k); }} O(h);'))
            da, ea, ga = FORMS[f](t, 'a', f'q_{t}(i)')
            nb = len(BIG[t])
            for k, st in {'plain': f'h = H(h, (u64){ea});', 'add': f'h = H(h, i + (u64){ea} * 3);', 'asg': f'u64 u = {ea}; h = H(h, u); u = {ea}; h = H(h, u >> 1);', 'cmp': f'h = H(h, (u64){ea} > 5 + i);', 'two': f'h = H(h, (u64){ea} ^ (u64)({ea} * 0.5f));', 'arg': f'h = H((u64){ea}, (u64){ea});', 'compound': f'u64 u = 7; u += {ea}; h = H(h, u); u = 1; u *= {ea}; h = H(h, u);' if 0 else f'u64 u = (u64){ea} / 3; h = H(h, u);',
                          'live': f'{t} y = 3; u64 u = 5; h = H(h, (u + i) * ((u64){ea} + (u64)(y * 2)) - (u64)y + (u64)({t})(u64){ea});'}.items():
                out.append((('fspec', 'u64', t, f, k), ga, f'u64 h = 0; for(s32 i = 0; i < {nb}; i++){{ {da} {st} }} O(h);'))
    return pre, out
