from common import *
import struct as st, itertools, random

H24 = '''typedef unsigned char u8; typedef unsigned int u32; typedef unsigned long long u64; typedef int s32; typedef long long s64;
__declspec(dllimport) void RaiseException(u32 code, u32 flags, u32 n, u64 *args);
static u64 *o_; static volatile s32 z_; static s32 one(void){ return 1; } static s32 id(s32 x){ return x; } static double dd(double x){ return x + 1; }
struct big { u64 a[5]; }; static struct big mk(s32 x){ struct big b = {{1, 2, 3, 4, 5}}; b.a[1] += 10 / x; return b; }
static s32 six(s32 a, s32 b, s32 c, s32 d, s32 e, s32 f){ return a + b + c + d + e + f; }
struct rec { u32 code, flags; struct rec *next; void *addr; u32 n; u64 info[15]; }; struct ptrs { struct rec *r; void *c; };
static s32 flt(void *p, u32 code){ return ((struct ptrs *)p)->r->code == code; }
static s32 own(s32 r){ s32 v = 0; __try { v = 1 / z_; } __except(1){ return r; } return 77; }
static s32 ninf(void *p){ struct rec *r = ((struct ptrs *)p)->r; return r->code == 0xE0000001u ? r->n == 2 && r->info[0] == 7 && r->info[1] == 9 : 1; }
#define T(k) ((void)(o_[1 + o_[0]] = (u64)((k) * 1000 + v), o_[0] += 1))
'''
# raising statements: (C, exception code, continuable)
RAISE = {
    'rex': ('RaiseException(0xE0000001, 0, 0, 0);', 0xE0000001, True), 'div': ('v = 5 / z_;', 0xC0000094, False), 'mod': ('v = (s32)(5 % (u64)z_);', 0xC0000094, False), 'wr': ('*(volatile s32 *)0 = 1;', 0xC0000005, False), 'rd': ('v += *(volatile s32 *)0;', 0xC0000005, False), 'brk': ('__debugbreak();', 0x80000003, False),
    'exp': ('v = id(v + 3) * (id(4) + id(2) / z_) + v;', 0xC0000094, False), 'arg': ('v = six(id(1), 2, 3, id(4), 5, 9 / z_);', 0xC0000094, False), 'agg': ('struct big b = mk(z_); v += (s32)b.a[1];', 0xC0000094, False), 'flt': ('double d = dd(1.5) * dd(2.5) + (double)(1 / z_); v = (s32)d;', 0xC0000094, False), 'loc': ('volatile u8 a[5000]; a[id(4000)] = 1; v = a[4000] / z_;', 0xC0000094, False), 'alo': ('u8 *a = (u8 *)_alloca(id(100)); a[99] = 1; v = a[99] / z_;', 0xC0000094, False), 'dat': ('u64 a[2] = {7, 9}; RaiseException(0xE0000001, 0, 2, a);', 0xE0000001, True),
    'cal': ('((s32 (*)(void))0)();', 0xC0000005, False),
}
# filters: (C, function(interpreter, env, code) -> value)
def _tr(k, r):
    def f(I, env, code):
        I.emit(k, env)
        return r
    return f


def _v(d, r):
    def f(I, env, code):
        env['v'] += d
        return r
    return f


FILT = {
    '1': ('1', lambda I, e, c: 1), '0': ('0', lambda I, e, c: 0), '-1': ('-1', lambda I, e, c: -1), 't1': ('(T(801), 1)', _tr(801, 1)), 't0': ('(T(802), 0)', _tr(802, 0)), 't-1': ('(T(803), -1)', _tr(803, -1)), 'v': ('v == 3', lambda I, e, c: int(e['v'] == 3)), 'v5': ('(v += 5, 1)', _v(5, 1)), 'v50': ('(v += 5, 0)', _v(5, 0)),
    'code': ('(s32)(_exception_code() == 0xE0000001u)', lambda I, e, c: int(c == 0xE0000001)), 'info': ('flt(_exception_info(), 0xC0000094u)', lambda I, e, c: int(c == 0xC0000094)), 'cond': ('v ? 0 : one()', lambda I, e, c: 0 if e['v'] else 1), 'and': ('one() && v < 3', lambda I, e, c: int(e['v'] < 3)), 'own': ('own(1)', lambda I, e, c: 1), 'own0': ('own(0)', lambda I, e, c: 0), 'big': ('five', lambda I, e, c: 5), 'neg': ('-five', lambda I, e, c: -5), 'ninf': ('ninf(_exception_info())', lambda I, e, c: int(c != 0xE0000001 or I.raising == 'dat')),
}


class Unwind(Exception):
    pass


class Unhandled(Exception):
    pass


class Endless(Exception):
    pass


class Interp:
    def __init__(self, inject=-1, codes=None):
        self.out, self.frames, self.pt, self.inject, self.at = [], [], 0, inject, None

    def emit(self, k, env):
        self.out.append((k * 1000 + env['v']) & (1 << 64) - 1)

    def point(self):
        if self.pt == self.inject:
            self.pt += 1
            self.at = len(self.out)
            self.throw(0xE0000002, True)
        else:
            self.pt += 1

    def throw(self, code, cont):
        for fr in reversed(list(self.frames)):
            r = FILT[fr[0]][1](self, fr[1], code)
            if r > 0:
                raise Unwind(fr)
            if r < 0:
                if not cont:
                    raise Endless()
                return
        raise Unhandled(code)

    def run(self, s, env):
        k = s[0]
        if k == 'X':
            self.point()
            fr = (s[2], env, object())
            n = len(self.frames)
            self.frames.append(fr)
            try:
                self.point()
                r = self.run(s[1], env)
                self.point()
            except Unwind as u:
                del self.frames[n:]
                if u.args[0] is not fr:
                    raise
                self.point()
                r = self.run(s[3], env)
            del self.frames[n:]
            self.point()
            return r
        if k == 'S':
            for x in s[1:]:
                r = self.run(x, env)
                if r:
                    return r
            return None
        if k == 'L':
            for i in range(2):
                self.point()
                r = self.run(s[1], env)
                if r == 'B':
                    break
                if r in ('Q', 'G'):
                    return r
            self.point()
            return None
        if k == 'I':
            return self.run(s[1] if env['v'] < 3 else s[2], env)
        if k == 'W':  # switch(v)
            r = self.run(s[1], env) if env['v'] == 0 else None
            return None if r == 'B' else r
        self.point()
        if k == 'T':
            self.emit(s[1], env)
        elif k == 'V':
            env['v'] += s[1]
        elif k == 'C':
            e2 = {'v': 0}
            self.point()
            self.run(s[1], e2)
            self.point()
            self.emit(900, e2)
        elif k == 'R':
            self.raising = s[1]
            self.throw(RAISE[s[1]][1], RAISE[s[1]][2])
        elif k in 'BNQG':
            return k
        self.point()
        return None


class Gen:
    """C text of a program"""
    def __init__(self):
        self.fns, self.n = [], 0

    def c(self, s):
        k = s[0]
        if k == 'T':
            return f'T({s[1]});'
        if k == 'V':
            return f'v += {s[1]};'
        if k == 'R':
            return '{ ' + RAISE[s[1]][0] + ' }' if not RAISE[s[1]][0].startswith('v =') else RAISE[s[1]][0]
        if k == 'X':
            return f'__try {{ {self.c(s[1])} }} __except({FILT[s[2]][0]}){{ {self.c(s[3])} }}'
        if k == 'S':
            return ' '.join(self.c(x) for x in s[1:])
        if k == 'L':
            return f'for(s32 i = 0; i < 2; i++){{ {self.c(s[1])} }}'
        if k == 'I':
            return f'if(v < 3){{ {self.c(s[1])} }} else {{ {self.c(s[2])} }}'
        if k == 'W':
            return f'switch(v){{ case 0: {self.c(s[1])} }}'
        if k == 'C':
            self.n += 1
            nm = f'c@_{self.n}'
            self.fns.append(self.fn(nm, s[1]))
            return nm + '();'
        return {'B': 'break;', 'N': 'continue;', 'Q': 'return;', 'G': 'goto end;'}[k]


def fn_text(nm, s, g, k):
    # v is a local whose final value is traced on the one way out (return leaves it untraced)
    b = g.c(s)
    return f'static void {nm}(void){{ s32 v = 0, five = 5; (void)five; {b}{" end:;" if "goto end;" in b else ""} T({k}); }}\n'


class G2(Gen):
    def c(self, s):
        if s[0] == 'C':
            self.n += 1
            nm = f'c@_{self.n}'
            self.fns.append(fn_text(nm, s[1], self, 900))
            return nm + '();'
        return Gen.c(self, s)


class I2(Interp):
    def run(self, s, env):
        if s[0] == 'C':
            e2 = {'v': 0}
            self.point()
            r = self.run(s[1], e2)
            self.point()
            if r != 'Q':
                self.emit(900, e2)
            self.point()
            return None
        return Interp.run(self, s, env)


def outcome(s, inject=-1):
    """(trace, exception code or None, emitted at the injection) of the program within the outermost handler"""
    I = I2(inject)
    env = {'v': 0}
    code = None
    try:
        I.point()
        r = I.run(s, env)
        I.point()
        if r != 'Q':
            I.emit(901, env)
        I.point()
    except Unhandled as u:
        code = u.args[0]
    return I, code


T = lambda k: ('T', k)
S = lambda *a: ('S',) + a
X = lambda b, f, h: ('X', b, f, h)
R = lambda k: ('R', k)
C = lambda b: ('C', b)
L = lambda b: ('L', b)
B, N, Q, G = ('B',), ('N',), ('Q',), ('G',)
V = lambda k: ('V', k)


def progs(th):
    out = []
    raises = list(RAISE)
    filts = list(FILT)
    # raise kind x filter x what the handler does
    hs = {'t': T(5), 'v': V(7), 'q': Q, 'g': G, 'r': R('rex'), 'd': R('div'), 'x': X(R('wr'), '1', T(6)), '0': S(), 'c': C(T(7))}
    for r in raises:
        for f in filts:
            for hn, h in hs.items():
                out.append((f'one/{r}/{f}/{hn}', S(T(1), X(S(T(2), R(r), T(3)), f, h), T(4))))
    # the raising statement directly at the borders of the guarded block and in a callee
    for r in raises:
        for f in ('1', '0', 'v5', 'code'):
            for hn, h in hs.items():
                out.append((f'tight/{r}/{f}/{hn}', X(R(r), f, h)))
                out.append((f'callee/{r}/{f}/{hn}', X(C(R(r)), f, h)))
                out.append((f'deep/{r}/{f}/{hn}', X(C(S(V(2), C(S(V(3), R(r), T(8))))), f, h)))
                out.append((f'before/{r}/{f}/{hn}', S(R(r), X(T(2), f, h))))
                out.append((f'beforecall/{r}/{f}/{hn}', S(C(R(r)), X(T(2), f, h), T(3))))
                out.append((f'beforecall0/{r}/{f}/{hn}', S(C(R(r)), X(S(), f, h))))
                out.append((f'after/{r}/{f}/{hn}', S(X(T(2), f, h), R(r))))
                out.append((f'aftercall/{r}/{f}/{hn}', S(X(S(), f, h), C(R(r)))))
                out.append((f'endcall/{r}/{f}/{hn}', S(X(S(T(2), C(R(r))), f, h))))
                out.append((f'startcall/{r}/{f}/{hn}', S(X(S(C(R(r)), T(2)), f, h))))
                out.append((f'handlercall/{r}/{f}/{hn}', X(S(R('wr')), '1', S(C(R(r)), X(T(3), f, h)))))
                out.append((f'handlerin/{r}/{f}/{hn}', X(S(R('wr')), '1', X(R(r), f, h))))
                out.append((f'loop/{r}/{f}/{hn}', L(S(X(S(V(1), R(r)), f, h), T(3)))))
    # nesting: both filters, both handlers, in one function and across a call
    f6 = ['1', '0', '-1', 't1', 't0', 'v5', 'v50', 'code', 'v', 'own0', 't-1', 'cond']
    h4 = {'t': T(5), 'q': Q, 'r': R('rex'), 'd': R('div'), 'g': G, 'v': V(7)}
    for r in ('rex', 'div') if not th else ('rex', 'div', 'wr', 'brk', 'arg', 'loc'):
        for f1, f2 in itertools.product(f6, f6):
            for h1 in h4:
                for h2 in ('t', 'd') if not th else h4:
                    k = f'{r}/{f1}/{f2}/{h1}/{h2}'
                    out.append(('nest/' + k, X(S(X(S(V(3), R(r), T(1)), f1, h4[h1]), T(2)), f2, h4[h2])))
                    out.append(('nestcall/' + k, X(S(C(X(S(V(3), R(r), T(1)), f1, h4[h1])), T(2)), f2, h4[h2])))
    # sequences of guarded blocks without anything between them
    for r1, r2 in itertools.product(['rex', 'div', 'wr', None], repeat=2):
        for f1, f2 in itertools.product(['1', '0', 'v5', 't1', 'code'], repeat=2):
            b1, b2 = (R(r1) if r1 else T(1)), (R(r2) if r2 else T(2))
            out.append((f'seq/{r1}/{r2}/{f1}/{f2}', S(X(b1, f1, V(1)), X(b2, f2, V(2)))))
            out.append((f'seqin/{r1}/{r2}/{f1}/{f2}', X(S(X(b1, f1, V(1)), X(b2, f2, V(2))), 't1', T(3))))
            out.append((f'seqc/{r1}/{r2}/{f1}/{f2}', S(X(C(b1), f1, V(1)), X(C(b2), f2, V(2)))))
            out.append((f'three/{r1}/{r2}/{f1}/{f2}', X(S(X(X(b1, f1, R('wr')), f2, b2)), 'code', T(9))))
    # control flow out of guarded blocks and handlers
    ctl = {'b': B, 'n': N, 'q': Q, 'g': G, 't': T(3), 'r': R('div'), 'ib': ('I', S(V(3)), B), 'in': ('I', S(V(3), N), T(4)), 'cq': C(Q), 'w': ('W', S(V(1), B)), 'wx': ('W', X(S(T(7), B), '1', T(8))), 'wr': ('W', X(R('div'), '1', S(T(7), B)))}
    for a, b, c_ in itertools.product(ctl, ctl, ctl):
        for f in ('1', 'v5', '0') if th else ('1',):
            k = f'{a}/{b}/{c_}/{f}'
            out.append(('ctl/' + k, S(L(S(X(S(V(1), ctl[a], R('rex')), f, ctl[b]), ctl[c_])), R('div') if False else T(5))))
            out.append(('ctlout/' + k, X(S(L(S(X(S(ctl[a], R('rex')), f, S(V(1), ctl[b])), ctl[c_])), R('wr')), 't1', T(6))))
            out.append(('ctl2/' + k, S(L(X(S(X(S(V(1), ctl[a], T(2)), f, T(3)), ctl[b]), '1', ctl[c_])), C(R('div')))))
    # trees of three levels
    lv = [('X', '1'), ('X', '0'), ('X', 'v50'), ('X', 't-1'), ('C',), ('L',), ('H', '1')]
    for a, b, c_ in itertools.product(lv, lv, lv):
        for r in ('rex', 'div', None):
            s = S(V(1), R(r) if r else T(1), T(2))
            for n, x in enumerate((c_, b, a)):
                s = X(s, x[1], T(10 + n)) if x[0] == 'X' else C(s) if x[0] == 'C' else L(s) if x[0] == 'L' else X(R('wr'), '1', S(s, T(20 + n)))
            out.append((f'tree/{"".join(a)}/{"".join(b)}/{"".join(c_)}/{r}', X(S(s, T(3)), '1', T(4))))
    if th:
        lv2 = lv + [('X', 'code'), ('X', 'v5'), ('X', 't0')]
        for q in itertools.product(lv2, repeat=4):
            for r in ('rex', 'div'):
                s = S(V(1), R(r), T(2))
                for n, x in enumerate(q):
                    s = X(s, x[1], T(10 + n)) if x[0] == 'X' else C(s) if x[0] == 'C' else L(s) if x[0] == 'L' else X(R('wr'), '1', S(s, T(20 + n)))
                out.append((f'tree4/{"/".join("".join(x) for x in q)}/{r}', X(S(s, T(3)), '1', T(4))))
    # valid and deterministic programs only (a filter must not resume a faulting instruction)
    res = []
    for k, s in out:
        s = X(s, '1', T(99)) if not k.startswith('raw') else s
        try:
            I, code = outcome(s)
        except (Endless, RecursionError):
            continue
        assert code is None, k
        assert len(I.out) < 60
        res.append((k, s, I.out))
    return res


# parameters and locals used by filters and handlers
def params():
    out = []
    ty = {'u8': ('u8', '200', '{} == 200'), 's32': ('s32', '-7', '{} == -7'), 'u64': ('u64', '0x123456789abcull', '{} == 0x123456789abcull'), 'float': ('float', '1.5f', '{} == 1.5f'), 'double': ('double', '2.5', '{} == 2.5'), 'big': ('struct big', 'bb', '{}.a[3] == 4'), 's8': ('struct s8', 'ss', '{}.b == 6'), 'ptr': ('u8 *', '(u8 *)&bb', '{}[8] == 2')}
    for t, (c, a, chk) in ty.items():
        for pos in range(6):
            sig = ', '.join((f'{c} p' if i == pos else f's32 q{i}') for i in range(pos + 1))
            args = ', '.join(a if i == pos else str(i + 30) for i in range(pos + 1))
            oth = ' && '.join(f'q{i} == {i + 30}' for i in range(pos)) or '1'
            cond = chk.format('p')
            mod = {'big': 'p.a[3]++', 's8': 'p.b++', 'ptr': 'p++'}.get(t, 'p++')
            out.append((f'param/{t}/{pos}/filter', f'static void f@({sig}){{ s32 v = 0; __try {{ v = 1; v = v / z_; }} __except((s32)({cond} && {oth} && v == 1)){{ T(1); }} T(2); }}\n', f'f@({args});', [1001, 2001]))
            out.append((f'param/{t}/{pos}/handler', f'static void f@({sig}){{ s32 v = 0; __try {{ one(); v = v / z_; }} __except(1){{ v = {cond} && {oth}; T(1); }} T(2); }}\n', f'f@({args});', [1001, 2001]))
            out.append((f'param/{t}/{pos}/modify', f'static void f@({sig}){{ s32 v = 0; {c} l = p; __try {{ {mod}; {c} m = p; v = v / z_; }} __except({mod.replace("p", "l", 1)}, (s32)({oth})){{ v = {"l.a[3] == p.a[3]" if t == "big" else "l.b == p.b" if t == "s8" else "l == p"}; T(1); }} T(2); }}\n', f'f@({args});', [1001, 2001]))
    loc = {'arr': ('s32 a[7] = {1, 2, 3, 4, 5, 6, 7};', 'a[v + 6] == 7', 'a[2] = 8;', 'a[2] == 8'), 'st': ('struct big b = {{1, 2, 3, 4, 5}};', 'b.a[4] == 5', 'b = (struct big){{9}};', 'b.a[0] == 9 && !b.a[4]'), 'lit': ('struct big *b = &(struct big){{1, 2, 3}};', 'b->a[1] == 2', 'b->a[1] = 6;', 'b->a[1] == 6'), 'litf': ('', '((struct big){{1, 2, 3}}).a[2] == 3', '', '1'), 'sta': ('static s32 s = 4; s = 4;', 's == 4', 's = 9;', 's == 9'), 'dbl': ('double d = 0.5;', 'd * 4 == 2', 'd += 1;', 'd == 1.5'), 'bit': ('struct { u32 a : 3, b : 7; } x = { 5, 99 };', 'x.b == 99 && x.a == 5', 'x.b = 3;', 'x.b == 3 && x.a == 5'), 'addr': ('s32 y = 1, *py = &y;', 'py == &y && *py == 1', '*py = 5;', 'y == 5'), 'huge': ('volatile u8 h[9000]; h[8999] = 3;', 'h[8999] == 3', 'h[0] = 4;', 'h[0] == 4 && h[8999] == 3'), 'alloca': ('u8 *h = (u8 *)_alloca(64); h[63] = 3;', 'h[63] == 3', 'h[0] = 4; h = (u8 *)_alloca(80); h[2] = 1;', 'h[2] == 1'), 'al': ('_Alignas(16) u8 h[16]; h[3] = 2;', 'h[3] == 2 && !((u64)h & 15)', 'h[4] = 3;', 'h[4] == 3'), 'asg': ('struct big b = {{1}}, c = {{2}};', '(b = c, b.a[0] == 2)', '', 'c.a[0] == 2'), 'call': ('s32 y = 3;', 'six(y, y, y, y, y, y) == 18', 'y++;', 'y == 4'), 'ret': ('', 'mk(2).a[1] == 7', '', '1'), 'inc': ('s32 y = 3;', 'y++ == 3 && y == 4', '', 'y == 4 || y == 3'), 'vla': ('s32 m[3][4]; m[2][3] = 5;', 'm[2][3] == 5', 'm[0][1] = 6;', 'm[0][1] == 6'), 'swc': ('u64 y = 5;', '(y * 3 % 4 << 2) == 12', 'y <<= 40;', 'y == 5ull << 40')}
    for k, (d, f, m, h) in loc.items():
        out.append((f'local/{k}/filter', f'static void f@(void){{ s32 v = 0; {d} __try {{ v = v / z_; }} __except((s32)({f})){{ T(1); }} T(2); }}\n', 'f@();', [1000, 2000]))
        out.append((f'local/{k}/handler', f'static void f@(void){{ s32 v = 0; {d} __try {{ {m} *(volatile s32 *)0 = 1; }} __except(1){{ v = {h}; T(1); }} T(2); }}\n', 'f@();', [1001, 2001]))
        out.append((f'local/{k}/rest', f'static void f@(void){{ s32 v = 0; {d} __try {{ RaiseException(0xE0000001, 0, 0, 0); {m} v = {h}; T(1); }} __except((s32)({f}) ? -1 : 0){{ T(7); }} v = {h}; T(2); }}\n', 'f@();', [1001, 2001]))
    for k, c_ in RAISE.items():
        for fl in ('_exception_code() == CODEu', '((struct ptrs *)_exception_info())->r->code == CODEu', '(v = (s32)_exception_code(), v == (s32)CODEu)'):
            out.append((f'code/{k}/{len(fl)}', f'static void f@(void){{ s32 v = 0; __try {{ {c_[0]} }} __except((s32)({fl.replace("CODE", hex(c_[1]))})){{ v = 5; T(1); }} T(2); }}\n', 'f@();', [1005, 2005]))
    return out


def assemble(g):
    """one image of the (declarations, call) items"""
    s = H24 + 'struct s8 { s32 a, b; };\n'
    b = ''
    for k, (d, call) in enumerate(g):
        s += d.replace('f@', f'f{k}').replace('c@', f'c{k}')
        b += f'if(w == {k} || w == ~0ull){{ o_ = o + 1 + {k} * 64; o_[0] = 0; {call.replace("f@", f"f{k}")} }}\n'
    return s + '__declspec(dllexport) u64 run(u64 *o, u64 n){ u64 w = o[0]; struct big bb = {{1, 2, 3, 4, 5}}; struct s8 ss = {5, 6}; (void)bb; (void)ss;\n' + b + f' return {(len(g) * 64 + 1) * 8}; }}\n'


ARGS = 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /l kernel32.lib /out a.dll'


def dll_of(c, src, key):
    r = c.e.compile({'a.c': src}, ARGS, timeout=30)
    d = r.files.get('a.dll')
    if not d:
        raise EngineError(f'{key}: a valid program is rejected {r.kind} {r.code:#x} {r.out[-500:].decode("latin1")}')
    return d


def traces(buf, n):
    q = st.unpack_from(f'<{n * 64 + 1}Q', buf)
    return [list(q[2 + k * 64:2 + k * 64 + min(q[1 + k * 64], 62)]) for k in range(n)]


def sync(c, items):
    B_ = 20

    def one(g):
        src = assemble([(d, call) for _, d, call, _ in g])
        dll = dll_of(c, src, g[0][0])
        r = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=1 << 16, stack=4 << 20)
        got = traces(r.buf, len(g)) if r.kind == 'exit' else None
        for k, (key, d, call, exp) in enumerate(g):
            c.seen(key)
            c.count()
            e = [x & (1 << 64) - 1 for x in exp]
            if got and got[k] == e:
                continue
            r1 = c.e.run_dll(dll, inp=hx.u64(k), bufsize=1 << 16, stack=4 << 20)
            if r1.kind == 'exit' and traces(r1.buf, len(g))[k] == e:
                if got:
                    c.violation(key, f'differs only when executed after other items: {got[k]} expected {e}: {d}', {'a.c': src, 'a.dll': dll})
                continue
            c.violation(key, f'{r1.kind} {r1.code:#x} {r1.errs} trace {traces(r1.buf, len(g))[k] if r1.kind == "exit" else None}, expected {e}: {d}', {'a.c': src, 'a.dll': dll, 'item.txt': d})

    c.e.map(one, [items[i:i + B_] for i in range(0, len(items), B_)])


def filters_of(dll):
    """ranges of the filter functions (from the scope tables)"""
    pe = st.unpack_from('<I', dll, 0x3c)[0]
    ns, oh = st.unpack_from('<H', dll, pe + 6)[0], st.unpack_from('<H', dll, pe + 20)[0]
    va, sz = st.unpack_from('<II', dll, pe + 24 + 112 + 8 * 3)
    secs = [st.unpack_from('<IIII', dll, pe + 24 + oh + 40 * i + 8) for i in range(ns)]

    def off(rva):
        for vs, v, rs, rp in secs:
            if v <= rva < v + max(vs, rs):
                return rva - v + rp
    fns, fl = [], set()
    for i in range(sz // 12):
        b, e, u = st.unpack_from('<III', dll, off(va) + 12 * i)
        fns.append((b, e))
        o = off(u)
        if dll[o] >> 3 & 3:
            n = dll[o + 2]
            t = o + 4 + 2 * (n + (n & 1))
            for k in range(st.unpack_from('<I', dll, t + 4)[0]):
                fl.add(st.unpack_from('<I', dll, t + 8 + 16 * k + 8)[0])
    return [(b, e) for b, e in fns if b in fl]


def image_bytes(dll, rva, n):
    pe = st.unpack_from('<I', dll, 0x3c)[0]
    ns, oh = st.unpack_from('<H', dll, pe + 6)[0], st.unpack_from('<H', dll, pe + 20)[0]
    for i in range(ns):
        vs, v, rs, rp = st.unpack_from('<IIII', dll, pe + 24 + oh + 40 * i + 8)
        if v <= rva < v + max(vs, rs):
            return dll[rva - v + rp:rva - v + rp + n]


def asynchronous(c, ps):
    """an exception at every executed instruction of the programs"""
    SAFE = {'1', '0', '-1', 'v', 'code', 't1', 't0', 'v5', 'v50', 'big', 'neg'}

    def names(s):
        return set().union(*([{s[2]}] if s[0] == 'X' else []), *[names(x) for x in s[1:] if isinstance(x, tuple)])

    def one(p):
        key, s, exp = p
        g = G2()
        main_ = fn_text('f@', s, g, 901)
        text = ''.join(g.fns) + main_
        src = H24 + text.replace('f@', 'f').replace('c@', 'c') + '__declspec(dllexport) u64 run(u64 *o, u64 n){ o_ = o; f(); return 512; }\n'
        dll = dll_of(c, src, key)
        t = c.e.run_dll(dll, bufsize=1 << 12, stack=4 << 20, step=(4, 0))
        if t.kind != 'exit':
            c.violation('async/' + key, f'{t}: {text}', {'a.c': src})
            return
        allowed = {}
        k = 0
        while True:
            try:
                I, code = outcome(s, k)
            except Endless:  # the program would resume a faulting instruction for ever
                return
            k += 1
            if I.at is None:
                break
            allowed.setdefault(I.at, set()).add((tuple(I.out), None) if code is None else (None, code))
        for n_ in (0, len(exp)):  # run() itself
            allowed.setdefault(n_, set()).add((None, 0xE0000002))
        fl = filters_of(dll)
        n = t.aux[0]
        c.count(1, instructions=n)
        c.seen('async/' + key)
        for i in range(1, n + 1):
            r = c.e.run_dll(dll, bufsize=1 << 12, stack=4 << 20, step=(2, i))
            inj = r.extra.get('i')
            if not inj:
                c.violation(f'async/{key}', f'no injection at {i} of {n}: {r}', {'a.c': src})
                return
            rva, cnt = st.unpack('<QQ', inj[0])
            if any(b <= rva < e for b, e in fl) or image_bytes(dll, rva, 2) == b'\xff\x25':  # a filter or the import stub of the handler: within the dispatch of another exception
                continue
            c.count(0, injections=1)
            got = (tuple(st.unpack_from(f'<{min(r.buf[0], 60)}Q', r.buf, 8)), None) if r.kind == 'exit' else (None, r.code if r.kind == 'crash' else r.kind)
            if got in allowed.get(cnt, ()):
                continue
            c.violation(f'async/{key}', f'exception at instruction {i} (rva {rva:#x}) after {cnt} observations: {r.kind} {got}, allowed {sorted(map(str, allowed.get(cnt, ())))[:12]}: {text}', {'a.c': src, 'a.dll': dll})
            return

    fam = ('one', 'nest', 'nestcall', 'seq', 'seqc', 'seqin', 'ctl', 'ctlout', 'ctl2', 'tree', 'handlerin', 'handlercall', 'deep', 'loop', 'three')
    pick, per = [], {}
    for key, s, exp in ps:
        f = key.split('/')[0]
        if f not in fam or not names(s) <= SAFE or len(exp) > 30 or (names(s) & {'-1', 'neg'} and names(s) & {'v5', 'v50', 't0', 't1'}):  # resuming in the middle of an observation
            continue
        pick.append((f, key, s, exp))
    # every n-th program of each family
    for f in fam:
        l = [x[1:] for x in pick if x[0] == f]
        want = 40 if not c.thorough else 150
        per[f] = l[::max(1, len(l) // want)]
    c.e.map(one, [x for l in per.values() for x in l])


def body(c):
    ps = progs(c.thorough)
    items = []
    for key, s, exp in ps:
        g = G2()
        m = fn_text('f@', s, g, 901)
        items.append((key, ''.join(g.fns) + m, 'f@();', exp))
    sync(c, items + params())
    asynchronous(c, ps)
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every program of the bounded families (raising statement x filter x handler at every position: borders of guarded blocks, callees, handlers, loops; two nested guarded blocks in one function and across a call with every pair of filters; adjacent blocks; control flow out of blocks and handlers; trees of three levels; parameters and locals of every kind used by filters and handlers), executed with an independent exception dispatcher and compared with an interpreter of the language rules; for selected programs of every family, an exception is raised before every executed instruction and the result must be an outcome of raising it at a program point with the same observations. Non-trivial: programs for which the rules define the outcome.'
    c.sample({'raise': list(RAISE), 'filters': {k: v[0] for k, v in FILT.items()}})
    c.assumptions += ['the dispatcher of the engine follows the documented two-phase x64 procedure', '__finally is rejected by the compiler and not part of the property']


if __name__ == '__main__':
    main('C24', 'exploration', body, need_ref=False)
