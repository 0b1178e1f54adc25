"""C20: atomic operations are indivisible, return the prescribed value, for every width and operand form, also against another thread."""
from common import *
import subprocess, re, itertools

M = lambda w: (1 << w) - 1
PRE20 = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
'''
STDDEF = '#pragma once\ntypedef unsigned long long size_t; typedef long long ptrdiff_t; typedef unsigned short wchar_t;\n'
INT = {8: '__int8', 16: '__int16', 32: '__int32', 64: '__int64'}


def sx(v, w):
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v


class Op:
    """expr: C code over p (address of the location), a, b (arguments), e (address of a second word); model(loc, a, b) -> (newloc, result, newb); result None: no value."""
    def __init__(self, key, w, pre, ctype, expr, model, nargs=1, signed=True, reread=False, forms=('p',), include='', second=False, loc2=False):
        self.__dict__.update(locals())


def ops():
    o = []
    sfx = {8: '8', 16: '16', 32: '', 64: '64'}
    for w in (8, 16, 32, 64):
        s, t = sfx[w], {8: 'char', 16: 'short', 32: 'long', 64: '__int64'}[w]
        add = lambda name, expr, model, nargs, **k: o.append(Op(f'intrin/{name}{s}', w, '', t, f'_Interlocked{name}{s}({expr})', model, nargs, include='#include <intrin.h>\n', **k))
        add('Increment', 'p', lambda l, a, b: (l + 1, l + 1, b), 0)
        add('Decrement', 'p', lambda l, a, b: (l - 1, l - 1, b), 0)
        add('Exchange', 'p, a', lambda l, a, b: (a, l, b), 1)
        add('ExchangeAdd', 'p, a', lambda l, a, b: (l + a, l, b), 1)
        add('Or', 'p, a', lambda l, a, b: (l | a, l, b), 1)
        add('And', 'p, a', lambda l, a, b: (l & a, l, b), 1)
        add('Xor', 'p, a', lambda l, a, b: (l ^ a, l, b), 1)
        add('CompareExchange', 'p, a, b', lambda l, a, b: (a if l == b else l, l, b), 2)
    o.append(Op('intrin/ExchangePointer', 64, '', 'void *', '(u64)_InterlockedExchangePointer(p, (void *)a)', lambda l, a, b: (a, l, b), 1, include='#include <intrin.h>\n'))
    o.append(Op('intrin/CompareExchangePointer', 64, '', 'void *', '(u64)_InterlockedCompareExchangePointer(p, (void *)a, (void *)b)', lambda l, a, b: (a if l == b else l, l, b), 2, include='#include <intrin.h>\n'))
    o.append(Op('intrin/CompareExchange128', 128, '', '__int64', '_InterlockedCompareExchange128(p, (s64)(a >> 64), (s64)a, e)', lambda l, a, b: (a if l == b else l, int(l == b), l), 2, include='#include <intrin.h>\n', second=True))
    # _Atomic objects
    for w, names in ((8, ('char', 'unsigned char', '_Bool')), (16, ('short', 'unsigned short')), (32, ('int', 'unsigned int')), (64, ('long long', 'unsigned long long'))):
        for n in names:
            sg = not n.startswith('u') and n != '_Bool'
            k = n.replace(' ', '').replace('unsigned', 'u').replace('long', 'l')
            bl = n == '_Bool'
            B = (lambda v: int(v != 0)) if bl else (lambda v: v)
            val = lambda v, w=w, sg=sg: sx(v, w) if sg else v & M(w)
            forms = ('p', 'global', 'stmt', 'live', 'index', 'member', 'pp', 'cond')
            add = lambda name, expr, model, nargs, reread=False: o.append(Op(f'atomic/{k}/{name}', w, '', f'_Atomic {n}' if not bl else '_Atomic _Bool', expr, model, nargs, signed=sg, reread=reread, forms=forms))
            add('load', 'L', lambda l, a, b: (l, l, b), 0)
            add('store', 'L = a', lambda l, a, b, B=B: (B(a), B(a), b), 1, True)
            add('store-const', 'L = 1', lambda l, a, b: (1, 1, b), 0, True)
            add('postinc', 'L++', lambda l, a, b, B=B: (B(l + 1), l, b), 0)
            add('preinc', '++L', lambda l, a, b, B=B: (B(l + 1), B(l + 1), b), 0, True)
            add('postdec', 'L--', lambda l, a, b, B=B: (B(l - 1), l, b), 0)
            add('predec', '--L', lambda l, a, b, B=B: (B(l - 1), B(l - 1), b), 0, True)
            for nm, op, f in (('add', '+=', lambda x, y: x + y), ('sub', '-=', lambda x, y: x - y), ('and', '&=', lambda x, y: x & y), ('or', '|=', lambda x, y: x | y), ('xor', '^=', lambda x, y: x ^ y)):
                m = lambda l, a, b, f=f, B=B: (B(f(l, a)), B(f(l, a)), b)
                add(nm, f'L {op} a', m, 1, True)
                add(nm + '-const', f'L {op} 3', lambda l, a, b, m=m: m(l, 3, b), 0, True)
            add('mul', 'L *= a', lambda l, a, b, B=B, v=val: (B(v(l) * v(a)),) * 2 + (b,), 1, True)
            if bl:
                add('and-int', 'L &= (int)ah', lambda l, a, b: (0, 0, b), 0, True)
                add('or-int', 'L |= (int)ah + 2', lambda l, a, b: (1, 1, b), 0, True)
                add('xor-int', 'L ^= (int)ah + 2', lambda l, a, b: (1, 1, b), 0, True)
            else:
                add('add-float', 'L += -1.5f', lambda l, a, b, v=val: (int(v(l) - 1.5) if w < 32 else None,) * 2 + (b,), 0, True) if w < 32 and sg else None
                add('div', 'L /= 3', lambda l, a, b, v=val: ((abs(v(l)) // 3) * (1 if v(l) >= 0 else -1),) * 2 + (b,), 0, True)
                add('mod', 'L %= 7', lambda l, a, b, v=val: ((abs(v(l)) % 7) * (1 if v(l) >= 0 else -1),) * 2 + (b,), 0, True)
                add('shl', 'L <<= 3', lambda l, a, b: (l << 3,) * 2 + (b,), 0, True)
                add('shr', 'L >>= 3', lambda l, a, b, v=val: (v(l) >> 3,) * 2 + (b,), 0, True)
    # pointers
    o.append(Op('atomic/ptr/store', 64, '', 'char *_Atomic', 'L = (char *)a', lambda l, a, b: (a, a, b), 1, signed=False, reread=True, forms=('p', 'global', 'stmt')))
    o.append(Op('atomic/ptr/load', 64, '', 'char *_Atomic', 'L', lambda l, a, b: (l, l, b), 0, signed=False, forms=('p', 'global')))
    for nm, d, post in (('postinc', 1, 1), ('preinc', 1, 0), ('postdec', -1, 1), ('predec', -1, 0)):
        ex = ('L' + ('++' if d > 0 else '--')) if post else (('++' if d > 0 else '--') + 'L')
        o.append(Op(f'atomic/ptr/{nm}', 64, '', 'int *_Atomic', ex, lambda l, a, b, d=d, post=post: (l + 4 * d, l if post else l + 4 * d, b), 0, signed=False, reread=not post, forms=('p', 'global', 'stmt')))
    o.append(Op('atomic/ptr/add', 64, '', 'int *_Atomic', 'L += 3', lambda l, a, b: (l + 12, l + 12, b), 0, signed=False, reread=True, forms=('p', 'global', 'stmt')))
    # stdatomic.h
    T = {'bool': ('_Bool', 8), 'char': ('char', 8), 'uchar': ('unsigned char', 8), 'short': ('short', 16), 'ushort': ('unsigned short', 16), 'int': ('int', 32), 'uint': ('unsigned int', 32), 'long': ('long', 32), 'ulong': ('unsigned long', 32), 'llong': ('long long', 64), 'ullong': ('unsigned long long', 64)}
    for k, (n, w) in T.items():
        bl = k == 'bool'
        sg = not n.startswith('u') and not bl
        B = (lambda v: int(v != 0)) if bl else (lambda v: v)
        for ex in ('', '_explicit'):
            x = ', memory_order_seq_cst' if ex else ''
            add = lambda name, expr, model, nargs, **kw: o.append(Op(f'std/{k}/{name}{ex}', w, '', f'atomic_{k}', expr, model, nargs, signed=kw.pop('signed', sg), include='#include <stdatomic.h>\n', **kw))
            add('store', f'(atomic_store{ex}(p, a{x}), 0)', lambda l, a, b, B=B: (B(a), 0, b), 1)
            add('load', f'atomic_load{ex}(p{x})', lambda l, a, b: (l, l, b), 0)
            add('exchange', f'atomic_exchange{ex}(p, a{x})', lambda l, a, b, B=B: (B(a), l, b), 1)
            for nm in ('strong', 'weak'):
                add(f'cmpxchg_{nm}', f'atomic_compare_exchange_{nm}{ex}(p, e, a{x}{x})' if not ex else f'atomic_compare_exchange_{nm}{ex}(p, e, a{x})', lambda l, a, b, B=B: (B(a) if l == b else l, int(l == b), l), 2, second=True, signed=False)
            if not bl:
                for nm, f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('and', lambda x, y: x & y), ('or', lambda x, y: x | y), ('xor', lambda x, y: x ^ y)):
                    add('fetch_' + nm, f'atomic_fetch_{nm}{ex}(p, a{x})', lambda l, a, b, f=f: (f(l, a), l, b), 1)
    o.append(Op('std/ptr/cmpxchg', 64, '', 'void *_Atomic', 'atomic_compare_exchange_strong(p, e, (void *)a)', lambda l, a, b: (a if l == b else l, int(l == b), l), 2, second=True, signed=False, include='#include <stdatomic.h>\n'))
    for ex in ('', '_explicit'):
        x = ', memory_order_seq_cst' if ex else ''
        o.append(Op('std/flag/test_and_set' + ex, 8, '', 'atomic_flag', f'atomic_flag_test_and_set{ex}(p{x})', lambda l, a, b: (1, l, b), 0, signed=False, include='#include <stdatomic.h>\n'))
        o.append(Op('std/flag/clear' + ex, 8, '', 'atomic_flag', f'(atomic_flag_clear{ex}(p{x}), 0)', lambda l, a, b: (0, 0, b), 0, signed=False, include='#include <stdatomic.h>\n'))
    # bit tests (not atomic by definition: sequential meaning only)
    return o


def source(op, form):
    t = op.ctype
    w = op.w
    at = {8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u64'}[w]
    if '_Bool' in t or t == 'atomic_bool':
        et, ct = '_Bool', '_Bool'
    elif t in ('void *', 'void *_Atomic'):
        et, ct = 'void *', 'u64'
    elif 'flag' in t or '*' in t:
        et, ct = 'u64', 'u64'
    else:
        n = {'atomic_' + k: v for k, v in {'char': 'char', 'uchar': 'unsigned char', 'short': 'short', 'ushort': 'unsigned short', 'int': 'int', 'uint': 'unsigned int', 'long': 'long', 'ulong': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long'}.items()}.get(t, t.replace('_Atomic ', ''))
        et = ct = n
    e = op.expr
    s = PRE20 + op.include + op.pre
    if 'flag' in t:
        et = 'u8'
    L = {'p': '(*p)', 'index': 'p[i]', 'member': 's->m', 'pp': '(**pp)', 'global': 'g', 'carray': '(*(p + 0))'}.get(form, '(*p)')
    e = re.sub(r'\bL\b', L, e)
    s += f'struct S {{ u64 pad; {t} m; }};\n'
    if form == 'global':
        s += f'{t} g;\n'
    if w == 128:
        s = s.replace('(s64)(a >> 64), (s64)a', '')
        e = e.replace('(s64)(a >> 64), (s64)a', '(s64)ah, (s64)a')
    s += f'__declspec(noinline) u64 op({t} *p, {ct} a, {ct} b, {et} *e, u64 ah, s64 i, struct S *s, {t} **pp){{ (void)ah; (void)i; (void)s; (void)pp; (void)b; (void)e; (void)a; (void)p;\n'
    if form == 'stmt':
        s += f'{e}; return 0; }}\n'
    elif form == 'cond':
        s += f'if({e}) return 1; return 0; }}\n'
    elif form == 'live':
        s += f'u64 x = ah + 5, y = (u64)i + 7; return x * 3 + (y ^ (x + (u64)({at})({e}) * (y + x - 11))) - (x + y); }}\n'
    else:
        s += f'return (u64)({at})({e}); }}\n'
    loc = 'u64 *l = o;'
    s += f'''__declspec(dllexport) u64 run(u64 *o, u64 n){{ {t} *p = ({t} *)o; {t} *q = p; (void)q;
    {'u64 *gl = (u64 *)&g; __movesz(gl, o); p = (' + t + ' *)&g; o[6] = (u64)&g;' if form == 'global' else ''} o[7] = (u64)op;
    o[5] = op(p, ({ct})o[2], ({ct})o[4], ({et} *)(o + 8), o[3], 0, (struct S *)((u8 *)o - 8), &q);
    {'__movesz(o, gl);' if form == 'global' else ''}
    return 96; }}\n'''
    if form == 'global':
        s = s.replace('__declspec(dllexport)', f'static void __movesz(u64 *d, u64 *x){{ u8 *a = (u8 *)d, *b = (u8 *)x; for(int i = 0; i < {w // 8}; i++) a[i] = b[i]; }}\n__declspec(dllexport)')
    return s


def values(w, k):
    v = {8: [0, 1, 2, 0x7f, 0x80, 0xff, 0x5a], 16: [0, 1, 0x7fff, 0x8000, 0xffff, 0x5aa5], 32: [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678], 64: [0, 1, 0x7fffffffffffffff, 1 << 63, M(64), 0x123456789abcdef0, 0xffffffff], 128: [0, 1, M(128), 0x123456789abcdef0fedcba9876543210, 1 << 64, M(64)]}[w]
    return v


OTHER = [(1, 'add'), (0, 'set'), (2, 'xor')]


def body(c):
    OBJDUMP = '/usr/bin/llvm-objdump-18'
    cache = {}

    def live(x, w):  # the 'live' form of the result (ah = 0, i = 0)
        X, Y = 5, 7
        return (X * 3 + (Y ^ ((X + x * (Y + X - 11)) & M(64))) - (X + Y)) & M(64)

    def one(t):
        op, form = t
        key = f'{op.key}/{form}'
        s = source(op, form)
        r = c.e.compile({'a.c': s, 'stddef.h': STDDEF, 'malloc.h': '#pragma once\n'}, 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /I . /out a.dll')
        dll = r.files.get('a.dll')
        c.count(1)
        if not dll:
            if r.kind == 'exit' and r.code == 1 and b'Error' in r.out:
                if b'not supported' in r.out or b'not implemented' in r.out:  # rejected with a diagnostic: nothing to decide
                    c.count(0, rejected=1)
                    return
            c.violation(key, f'does not compile: {r.kind} {r.code:#x} {r.out[-400:].decode("latin1")}', {'a.c': s})
            return
        w = op.w
        vs = values(w, op.key)
        bl = '_Bool' in op.ctype or op.ctype == 'atomic_bool' or 'flag' in op.ctype
        if bl:
            vs = [0, 1]
        isbl = bl
        BASE = 0x180000000
        name = {'stmt': lambda x: 0, 'cond': lambda x: int((x & M(w)) != 0), 'live': lambda x: live(x & M(w), w)}.get(form, lambda x: x & M(w if op.result_w is None else op.result_w))

        def pack(l, a, b):
            return hx.u64(l & M(64)) + hx.u64(l >> 64) + hx.u64(a & M(64)) + hx.u64(a >> 64) + hx.u64(b & M(64)) + hx.u64(0) + hx.u64(0) + hx.u64(0) + hx.u64(b & M(64)) + hx.u64(b >> 64) + hx.u64(0) * 2

        def read(r):
            q = struct.unpack('<12Q', r.buf[:96])
            loc = (q[0] | q[1] << 64)
            return loc, q[5], (q[8] | q[9] << 64), q[6], q[7]

        def model(l, a, b):
            n, res, nb = op.model(l, a, b)
            return n & M(w), name(res), nb & M(w)
        first = True
        lines = None
        combos = []
        for l in vs:
            for a in (vs if op.nargs else [0]):
                for b in ((([l] + [v for v in vs if v != l][:1])) if op.nargs == 2 else [0]):
                    combos.append((l, a, b))
        # sequential meaning for the full product
        for l, a, b in combos if c.thorough or form == 'p' else combos[::max(1, len(combos) // 6)]:
            r = c.e.run_dll(dll, inp=pack(l, a, b), base=BASE)
            c.count(1, sequential=1)
            if r.kind != 'exit':
                c.violation(key, f'loc={l:#x} a={a:#x} b={b:#x}: {r}', {'a.c': s})
                return
            loc, res, nb = read(r)[:3]
            e = model(l, a, b)
            got = (loc & M(w), res, nb & M(w) if op.second else e[2])
            want = (e[0], e[1], e[2])
            if loc >> w != 0 or got != want:
                c.violation(key, f'loc={l:#x} a={a:#x} b={b:#x}: got loc={loc:#x} result={res:#x} expected={nb:#x}, prescribed loc={want[0]:#x} result={want[1]:#x} second={want[2]:#x}', {'a.c': s})
                return
        # interleavings
        lim = combos[::max(1, len(combos) // 4)][:5] if c.thorough else combos[len(combos) // 3:][:1] + combos[-1:]
        if not c.thorough and (form not in ('p', 'global', 'stmt', 'live') or '_explicit' in op.key):
            lim = combos[-1:]
        for l, a, b in lim:
            tr = c.e.run_dll(dll, inp=pack(l, a, b), base=BASE, step=(4, 0), stack=1 << 20)
            if tr.kind != 'exit':
                raise EngineError(f'{key}: {tr}')
            trace = struct.unpack(f'<{len(tr.extra["r"][0]) // 4}I', tr.extra['r'][0])
            ga = read(tr)[3]
            loc_off = ga - BASE if form == 'global' else 0
            flag = 0x100 if form == 'global' else 0
            if lines is None:
                lines = disasm(dll, set(trace))
            # steps of the operation: from the entry of op() to its return
            entry = trace.index(read(tr)[4] - BASE)
            back = trace.index(trace[entry - 1] + 5, entry)
            steps = range(entry, back + 1)
            for oc, on in OTHER:
                for ov in ((1,) if oc == 1 else ((vs[-1],) if isbl else (0x33, b) if op.nargs == 2 else (0x33,)) if oc == 0 else (1,)):
                    if isbl:
                        if oc == 1:
                            continue
                        ov &= 1
                    ov &= M(min(w, 64))
                    size = min(w, 64) // 8
                    other = lambda v: {0: (v & ~M(size * 8)) | ov, 1: (v & ~M(size * 8)) | ((v + ov) & M(size * 8)), 2: v ^ ov}[oc]
                    m1 = model(l, a, b)
                    A = (other(m1[0]), m1[1], m1[2], m1[0] & M(64))
                    oth = other(l)
                    m2 = model(oth, a, b)
                    Bq = (m2[0], m2[1], m2[2], l & M(64))
                    ok = {A, Bq}
                    if op.reread:
                        ok.add((A[0], name(A[0]), A[2], A[3]))
                    for st in steps:
                        r = c.e.run_dll(dll, inp=pack(l, a, b), base=BASE, step=(3, st + 1), stack=1 << 20, extra=hx.field('H', hx.u64(loc_off) + hx.u64(size) + hx.u64(oc | flag) + hx.u64(ov) + hx.u64(0)))
                        c.count(1, interleavings=1)
                        if r.kind != 'exit':
                            c.violation(key, f'with another thread at step {st}: {r}', {'a.c': s})
                            return
                        if r.aux[2] != 1:
                            continue
                        loc, res, nb = read(r)[:3]
                        got = (loc & M(w), res, nb & M(w) if op.second else A[2], r.aux[1])
                        if got not in ok:
                            c.violation(key, f'loc={l:#x} a={a:#x} b={b:#x}, the other thread does {on} {ov:#x} before instruction {st} ({lines.get(trace[st])}): got (loc, result, second, old value seen by the other) = {tuple(map(hex, got))}, serial: {[tuple(map(hex, x)) for x in ok]}', {'a.c': s})
                            return
                        # an instruction that reads and writes the location without a lock: the other thread in between
                    for st in steps[:-1]:
                        txt = lines.get(trace[st], '')
                        if not unlocked_rmw(txt):
                            continue
                        r = c.e.run_dll(dll, inp=pack(l, a, b), base=BASE, step=(3, st + 1), stack=1 << 20, extra=hx.field('H', hx.u64(loc_off) + hx.u64(size) + hx.u64(oc | flag) + hx.u64(ov) + hx.u64(1)))
                        c.count(1, split_instructions=1)
                        if r.kind != 'exit' or r.aux[2] != 2:
                            continue
                        loc, res, nb = read(r)[:3]
                        got = (loc & M(w), res, nb & M(w) if op.second else A[2], r.aux[1])
                        if got not in ok:
                            c.violation(key, f'loc={l:#x} a={a:#x} b={b:#x}: "{txt}" is not locked: the other thread\'s {on} {ov:#x} between its read and its write is lost: (loc, result, second, old) = {tuple(map(hex, got))}, serial: {[tuple(map(hex, x)) for x in ok]}', {'a.c': s})
                            return
        c.seen(key)

    def disasm(dll, rvas):
        import tempfile
        with tempfile.NamedTemporaryFile(suffix='.dll') as f:
            f.write(dll)
            f.flush()
            out = hx.tool([OBJDUMP, '-d', '--no-show-raw-insn', '-M', 'intel', f.name]).stdout.decode('latin1')
        base = None
        res = {}
        for ln in out.split('\n'):
            m = re.match(r'\s*([0-9a-f]+):\s+(.*)', ln)
            if m:
                a = int(m.group(1), 16)
                res[a & 0xfffffff] = m.group(2).strip().replace('\t', ' ')
        return res

    RMW = re.compile(r'^(add|sub|and|or|xor|inc|dec|neg|not|adc|sbb|shl|shr|sar|rol|ror|xadd|cmpxchg|cmpxchg16b|bts|btr|btc)\b\s+(byte|word|dword|qword|xmmword)?\s*(ptr)?\s*\[')

    def unlocked_rmw(t):
        return bool(RMW.match(t)) and 'rsp' not in t and 'rbp' not in t

    for op in OPS:
        op.result_w = None
        if 'cmpxchg' in op.key or op.key.endswith('128') or 'flag' in op.key:
            op.result_w = 8
    items = [(op, f) for op in OPS for f in op.forms if os.environ.get('HX_ONLY', '') in f'{op.key}/{f}']
    c.e.map(one, items)
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every _Interlocked intrinsic, _Atomic operator and stdatomic.h function x width x operand form: the full product of boundary values sequentially, and for selected values the operation of another thread before every executed instruction and between the read and the write of every unlocked read-modify-write instruction; (location, result, second result, value seen by the other thread) must be one of the two serial outcomes. Non-trivial: operation compiled and every interleaving decided.'
    c.assumptions += ['an instruction with a lock prefix, xchg with memory, and an aligned load or store are indivisible on x64', 'the value of an (compound) assignment may be re-read from the object (footnote 111 of C11 6.5.16)']
    c.sample({'operations': [o.key for o in OPS[:40]]})


OPS = ops()
if __name__ == '__main__':
    main('C20', 'exploration', body, need_ref=False)
