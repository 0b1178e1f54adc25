"""C19: inline assembly is encoded as written: every (mnemonic, operand kinds) x registers x memory operands x immediates, decoded and compared with llvm-mc's encoding;
sequences of instructions and C variables as operands are executed and compared with clang's."""
from common import *
import asm, itertools, re

R8 = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + [f'r{i}b' for i in range(8, 16)]
R16 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + [f'r{i}w' for i in range(8, 16)]
R32 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + [f'r{i}d' for i in range(8, 16)]
R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + [f'r{i}' for i in range(8, 16)]
REGS = {'r8': R8, 'r16': R16, 'r32': R32, 'r64': R64, 'x': [f'xmm{i}' for i in range(16)], 'y': [f'ymm{i}' for i in range(16)]}
DEF = {'r8': [3, 1, 2, 6], 'r16': [3, 1, 2, 6], 'r32': [3, 1, 2, 6], 'r64': [3, 1, 2, 6], 'x': [3, 5, 9, 2], 'y': [3, 5, 9, 2]}
SZ = {'m0': '', 'm8': 'byte ptr ', 'm16': 'word ptr ', 'm32': 'dword ptr ', 'm64': 'qword ptr ', 'm128': 'xmmword ptr ', 'm256': 'ymmword ptr '}
KINDS = list(REGS) + list(SZ) + ['i']
HERE = os.path.dirname(os.path.abspath(__file__))


def operand(k, pos, addr='[rdi]', reg=None, imm='5'):
    if k in REGS:
        return REGS[k][DEF[k][pos] if reg is None else reg]
    return imm if k == 'i' else SZ[k] + addr


def line(n, ops):
    return (n + ' ' + ', '.join(ops)).strip()


SHIFT = {'rol', 'ror', 'rcl', 'rcr', 'shl', 'shr', 'sal', 'sar'}
CL = {'cl', 'cx', 'ecx', 'rcx'}
NEG = {'ge': 'nlt', 'gt': 'nle', 'nge': 'lt', 'ngt': 'le'}


def canon(n, k, ops):
    """The instruction meant by hlc's more liberal spellings, in llvm's spelling."""
    ops = list(ops)
    if n in SHIFT and len(ops) == 2 and ops[1] in CL:
        ops[1] = 'cl'
    m = re.match(r'cmp(ge|gt|nge|ngt)([ps][sd])$', n)
    if m:
        n = f'cmp{NEG[m[1]]}{m[2]}'
    def resize(i, kind):
        if ('[' in ops[i]) == (kind[0] == 'm'):
            ops[i] = SZ[kind] + re.search(r'(gs:)?\[.*', ops[i])[0] if '[' in ops[i] else REGS[kind][REGS[k[i]].index(ops[i])] if k[i] in REGS else ops[i]
    if n == 'clflush':
        resize(0, 'm8')
    if n == 'cmpxchg16b':
        resize(0, 'm128')
    if n in ('cvtdq2pd', 'cvtps2pd') and k[1] == 'm128':
        resize(1, 'm64')
    if n in ('pextrw', 'pextrb') and k[0] in ('r8', 'r16', 'r64'):
        resize(0, 'r32')
    if n in ('pinsrw', 'pinsrb') and k[1] in ('r8', 'r16', 'r64'):
        resize(1, 'r32')
    if n == 'crc32' and k[1] in ('r16', 'm16', 'r32', 'm32', 'm0') and k[0] == 'r64':
        resize(0, 'r32')
    if n == 'crc32' and k[1] in ('r64', 'm64'):
        resize(0, 'r64')
    if n == 'prefetch' and k and k[0] == 'i' and ops[0] in '0123':
        return 'prefetch' + ['nta', 't0', 't1', 't2'][int(ops[0])] + ' byte ptr ' + ops[1][ops[1].index('['):]
    return line(n, ops)


def extra(l):
    """movzx/movsx of 16 bits to 16 bits exist but have no assembler spelling."""
    return re.match(r'mov[sz]x (\w+), (word ptr .*|\w+)$', l) and l.split()[1][:-1] in R16 and (l.endswith(']') or l.split()[2] in R16)


def front(b):
    """Segment overrides first and the mandatory prefixes last, as the disassembler wants them (their order has no meaning)."""
    i = 0
    while i < len(b) and b[i] in (0x65, 0x66, 0x67, 0xf0, 0xf2, 0xf3):
        i += 1
    return bytes(sorted(b[:i], key=lambda x: (x not in (0x65, 0x67), x))) + b[i:]


def equiv(t):
    """movhpd/movhps and movlpd/movlps move the same 64 bits."""
    t = 'nop' if t in ('xchg ax, ax', 'xchg rax, rax') else t
    t = re.sub(r' \+ \d\*[er]iz', '', t)
    return re.sub(r'\s*#.*$', '', re.sub(r'\bmov([hl])pd\b', r'mov\1ps', t))


TMPR = {}
for _k in ('r8', 'r16', 'r32', 'r64'):
    for _i, _r in enumerate(REGS[_k]):
        TMPR[_r] = _i


def regs_in(t):
    return {TMPR[r] for r in re.findall(r'[a-z]+\d*[a-z]?', t) if r in TMPR}


def matches(want, got, imm=None):
    """got equals want, possibly with an operand first loaded into a register the instruction does not name (hlc does this for 'op [mem], imm')."""
    want, got = equiv(want), equiv(got)
    if want == got:
        return True
    p = got.split('; ')
    if len(p) != 2:
        return False
    m = re.match(r'(mov|movss|movsd) (\w+), (.*)$', p[0])
    if not m:
        return False
    used = regs_in(want)
    if m[1] == 'mov':
        t = TMPR.get(m[2])
        if t is None or t in used or t == 4:
            return False
        src = m[3]
        try:
            v = int(src, 0)
        except ValueError:
            return False
        for k in ('r8', 'r16', 'r32', 'r64'):
            w = p[1]
            r = REGS[k][t]
            if not re.search(r'\b' + r + r'\b', w):
                continue
            head, _, last = want.rpartition(', ')
            b = int(k[1:])
            wv = int(last, 0) if re.match(r'-?(0x)?[0-9a-f]+$', last) else None
            if wv is None or w != head + ', ' + r:
                return False
            # a 32-bit mov zero-extends
            have = v if TMPR and m[2] in R64 else v & 0xffffffff
            return (have ^ wv) & ((1 << b) - 1) == 0
        return False
    m2 = re.match(r'xmm\d+$', m[2])
    if m2 and not re.search(r'\b' + m[2] + r'\b', want):
        return p[1].replace(m[2], re.sub(r'^.*?, ', '', p[0])) == want
    return False


def forms():
    for l in open(os.path.join(HERE, 'asm.txt')):
        f = l.split()
        yield f[0], (tuple(f[1].split(',')) if len(f) > 1 else ())


class Run:
    def __init__(self, ctx):
        self.c = ctx

    def check(self, cases, fam):
        """cases: (key, hlc line, llvm line, mode) with mode 'must' (must be accepted) | 'may' (accepted correctly, or rejected)."""
        c = self.c
        mc = asm.mc_valid([x[2] for x in cases])
        keep = [(x, m) for x, m in zip(cases, mc)]
        res = asm.hlc_asm(c.e, [x[1] for x, _ in keep])
        want = asm.decode([m or b'' for _, m in keep])
        got = asm.decode([front(r) if isinstance(r, bytes) else b'' for r in res])
        for (x, m), r, w, g in zip(keep, res, want, got):
            c.count(1)
            key = fam + ':' + x[0]
            if m is None and extra(x[1]):
                w, m = x[1].replace('1*', ''), b'?'
            if m is not None:
                c.seen(key)
            if isinstance(r, bytes):
                if m is None:
                    self.bad(key, x[1], f'accepted although there is no such instruction; encoded as {r.hex()} = {g}')
                elif not matches(w, g):
                    self.bad(key, x[1], f'encoded as {r.hex()} = "{g}", expected "{w}"')
            elif r.startswith('rejected'):
                if m is not None and x[3] == 'must':
                    self.bad(key, x[1], 'supported instruction ' + r)
            else:
                self.bad(key, x[1], r)

    def bad(self, key, l, what):
        self.c.violation(key, f'{l}: {what}', {'a.c': f'__declspec(dllexport) void f(void){{ __asm__{{\n{l}\n}} }}\n', 'cmdline.txt': 'hlc ' + asm.ARGS})


ADDRS = ['[rax]', '[rsp]', '[rbp]', '[r12]', '[r13]', '[rsp + 8]', '[r12 - 8]', '[rbx + 127]', '[rbx + 128]', '[rbx - 128]', '[rbx - 129]', '[r9 + 4*r10]', '[rbx + 8*rsi + 16]', '[r13 + 1*rax]', '[rsi + 2*r12 - 300]', '[rbx + 2147483647]', '[rbx - 2147483648]', '[rdi + 4*rbp - 1]']
IMM8 = ['0', '1', '-1', '127', '128', '-128', '255', '0x5a']
IMMS = IMM8 + ['256', '-129', '32767', '32768', '-32768', '65535', '0x1234', '0x7fffffff', '0x80000000', '-2147483648', '0xffffffff', '0x12345678']
IMM64 = ['0x100000000', '0x7fffffffffffffff', '0x8000000000000000', '0xffffffffffffffff', '0x123456789abcdef0']
HIGH = {'spl', 'bpl', 'sil', 'dil'}


def gen_forms(r, th):
    F = list(forms())
    known = set(F)
    base, reg, mem, imm, gs = [], [], [], [], []
    for n, k in F:
        ops = [operand(x, i) for i, x in enumerate(k)]
        nm = n + (' ' + ','.join(k) if k else '')
        sh = n in SHIFT and len(k) == 2 and k[1][0] == 'r'
        if n == 'prefetch':
            for v in range(4):
                o = [str(v), ops[1]]
                base.append((nm + f' {v}', line(n, o), canon(n, k, o), 'must'))
            continue
        base.append((nm, line(n, ops), canon(n, k, ops), 'must'))
        ri = [i for i, x in enumerate(k) if x in REGS]
        for i in ri:
            if sh and i == 1:
                continue
            for v in range(16):
                o = list(ops)
                o[i] = REGS[k[i]][v]
                reg.append((nm + f' {i}={o[i]}', line(n, o), canon(n, k, o), 'may' if o[i] in HIGH else 'must'))
        # all pairs of registers
        if len(ri) >= 2 and not sh and (th or len(k) <= 3):
            for a, b in itertools.product(range(16), repeat=2):
                if not th and (a not in (0, 4, 5, 8, 12, 13, 15) or b not in (0, 1, 4, 6, 8, 13, 15)):
                    continue
                o = list(ops)
                o[ri[-2]], o[ri[-1]] = REGS[k[ri[-2]]][a], REGS[k[ri[-1]]][b]
                reg.append((nm + f' {",".join(o)}', line(n, o), canon(n, k, o), 'may' if set(o) & HIGH else 'must'))
        for i, x in enumerate(k):
            if x in SZ:
                for a in ADDRS:
                    o = list(ops)
                    o[i] = SZ[x] + a
                    mem.append((nm + f' {a}', line(n, o), canon(n, k, o), 'must'))
                o = list(ops)
                o[i] = SZ[x] + 'gs:[rbx + 8]'
                l = canon(n, k, o)
                gs.append((nm + ' gs', line(n, o), l, 'may'))
            if x == 'i':
                w = max([int(y[1:]) if y[0] in 'rm' and y[1:].isdigit() else 0 for y in k] + [0])
                full = n in ('mov', 'add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'cmp', 'test')
                for v in (IMMS + (IMM64 if n == 'mov' and k[0] == 'r64' else []) if full else IMM8):
                    o = list(ops)
                    o[i] = v
                    iv = int(v, 0)
                    if full and w < 64 and not -(1 << (w - 1)) <= iv < 1 << w:
                        continue
                    if full and w == 64 and n != 'mov' and not -(1 << 31) <= iv < 1 << 31:
                        continue
                    if full and w == 64 and n == 'mov' and k[0] != 'r64' and not -(1 << 31) <= iv < 1 << 31:
                        continue
                    if not full and iv < 0 and n not in ('int',):
                        continue
                    o2 = list(o)
                    if iv > 0x7f and full and w and w < 64 and iv >> (w - 1):
                        o2[i] = str(iv - (1 << w))
                    imm.append((nm + f' imm {v}', line(n, o), canon(n, k, o2), 'must'))
    r.check(base, 'form')
    r.check(reg, 'reg')
    r.check(mem, 'mem')
    r.check(imm, 'imm')
    r.check(gs, 'gs')
    # the full product of memory operands for a few instructions
    full = []
    offs = [0, 1, -1, 8, 127, -128, 128, -129, 0x12345, -0x12345, 2147483647, -2147483648]
    for n, pre, post in [('mov', 'ecx, dword ptr ', ''), ('movups', 'xmm9, ', ''), ('vaddps', 'ymm1, ymm9, ymmword ptr ', ''), ('sub', 'qword ptr ', ', r15'), ('pshufd', 'xmm8, xmmword ptr ', ', 7'), ('bts', 'word ptr ', ', 3')]:
        for b in R64:
            for ix in [None] + [x for x in R64 if x != 'rsp']:
                for s in ([1, 2, 4, 8] if ix else [1]):
                    for o in (offs if th or (R64.index(b) % 4 in (0, 1) and s in (1, 8)) else offs[:1] + offs[5:7]):
                        a = f'[{b}' + (f' + {s}*{ix}' if ix else '') + (f' + {o}' if o > 0 else f' - {-o}' if o < 0 else '') + ']'
                        l = f'{n} {pre}{a}{post}'
                        full.append((l, l, l, 'must'))
    r.check(full, 'addr')
    # operand kinds that are not in the table: an existing instruction may be accepted if it is encoded correctly, anything else is rejected
    names = {}
    for n, k in F:
        names.setdefault(n, set()).add(len(k))
    rest = []
    for n, cs in names.items():
        for cnt in cs:
            for k in itertools.product(KINDS, repeat=cnt):
                if (n, k) in known or sum(x[0] == 'm' for x in k) > 1 or n == 'prefetch':
                    continue
                if cnt == 4 and (k[3] != 'i' or any(x[0] == 'r' for x in k)):
                    continue
                if cnt == 3 and not th and sum(x in ('r16', 'm16', 'm32') for x in k) > 0:
                    continue
                ops = [operand(x, i) for i, x in enumerate(k)]
                rest.append((line(n, [','.join(k)] if k else []), line(n, ops), canon(n, k, ops), 'may'))
    r.check(rest, 'other')
    # operands no instruction has
    bad = ['[rdi + 3*rax]', '[rdi + 16*rax]', '[rdi + 0*rax]', '[rdi + 4*rsp]', '[eax]', '[ax + 8]', '[rdi + 4*eax]', '[rdi + 0x80000000]', '[rdi - 0x80000001]', '[rdi + 0x100000000]']
    bad += ['[ax]', '[eax + 4*rcx]', '[rax + 4*ecx]', '[rdi + 4*cl]']
    r.check([(f'mov ecx, {a}', f'mov ecx, {a}', f'mov ecx, {a}', 'may') for a in bad], 'badaddr')
    # 32-bit addresses
    a32 = [f'[{b}{x}]' for b in R32 for x in ['', ' + 8', ' - 129'] + [f' + {sc}*{ix} + 1' for sc in (1, 4) for ix in R32 if ix != 'esp']]
    r.check([(t, t, t, 'must') for a in a32 for t in (f'mov ecx, {a}', f'movups xmm9, {a}', f'lock add word ptr {a}, 5', f'inc byte ptr gs:{a}')], 'addr32')
    # prefixes
    pre = []
    for n in ['add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'xadd', 'cmpxchg', 'xchg', 'bts', 'btr', 'btc']:
        for s in ('byte', 'word', 'dword', 'qword'):
            if s == 'byte' and n[:2] == 'bt':
                continue
            for src in [{'byte': 'cl', 'word': 'cx', 'dword': 'ecx', 'qword': 'rcx'}[s]] + (['5'] if n not in ('xadd', 'cmpxchg', 'xchg') else []):
                pre.append(f'lock {n} {s} ptr [rdi], {src}')
    pre += [f'lock {n} {s} ptr [rdi]' for n in ('inc', 'dec', 'neg') for s in ('byte', 'word', 'dword', 'qword')] + ['lock cmpxchg16b [rdi]']
    r.check([(p, p, p.replace('16b [', '16b xmmword ptr ['), 'must') for p in pre], 'lock')
    r.check([(f'{p} {o}', f'{p} {o}', f'rep {o}', 'must') for p in ('rep', 'repe') for o in ('movsb', 'movsw', 'movsq', 'stosb', 'stosw', 'stosd', 'stosq')], 'rep')


# ---- execution: sequences of instructions over C variables

PRE = """
typedef void *vp;
struct S { u8 x; u16 w; u32 y; u64 z; };
u64 ga; u32 gc; u16 gd; u8 ge; struct S gs_;
"""
VARS = {64: ['a', 'ga', 's.z', 'gs_.z'], 32: ['b', 'gc', 's.y', 'gs_.y'], 16: ['c', 'gd', 's.w', 'gs_.w'], 8: ['d', 'ge', 's.x', 'gs_.x']}
RG = {64: ('rax', 'rcx', 'r10'), 32: ('eax', 'ecx', 'r10d'), 16: ('ax', 'cx', 'r10w'), 8: ('al', 'cl', 'r10b')}


def exec_ops():
    o = []
    for w in (64, 32, 16, 8):
        v, g, sm, gm = VARS[w]
        ra, rc, rt = RG[w]
        o += [f'mov {ra}, {v}', f'mov {v}, {rc}', f'mov {gm}, {rt}', f'add {ra}, {g}', f'sub {sm}, {ra}', f'adc {g}, 0', f'adc {ra}, {gm}', f'sbb {v}, 5', f'xor {gm}, -3', f'and {rc}, {sm}', f'or {sm}, {rc}', f'cmp {v}, {ra}', f'cmp {g}, 1', f'neg {g}', f'inc {v}', f'dec {gm}',
              f'shl {v}, 3', f'shr {g}, cl', f'sar {ra}, cl', f'rol {sm}, cl', f'rcr {gm}, 1', f'xadd {v}, {rc}', f'xchg {g}, {rt}', f'cmpxchg {sm}, {rc}', f'mul {g}', f'mov {v}, 77', f'mov {gm}, 0', f'imul {rc}']
        if w > 8:
            o += [f'bts {v}, 3', f'btr {g}, 1', f'popcnt {rt}, {v}', f'bsf {ra}, {g}']
    o += ['movzx eax, d', 'movsx rcx, gd', 'movzx r10d, s.w', 'movsx rax, gs_.x', 'setc d', 'setz ge', 'sets al', 'bswap rcx', 'movd xmm1, b', 'movd eax, xmm1', 'movq xmm2, ga', 'movq rcx, xmm2', 'cvtsi2sd xmm1, rcx', 'paddd xmm1, xmm2', 'addsd xmm1, xmm2', 
          'mov rax, 0x123456789abcdef0', 'mov eax, -1', 'xor eax, eax']
    return o


def exec_item(ops, key, vals):
    body = f"""u64 a = {vals[0]}ull; u32 b = (u32){vals[1]}ull; u16 c = (u16){vals[2]}ull; u8 d = (u8){vals[3]}ull; struct S s = {{(u8)a, (u16)(a >> 16), (u32)(a >> 32), ~a}}; ga = {vals[1]}ull; gc = (u32)~a; gd = 0x8001; ge = 0xfe; gs_.x = 0x81; gs_.w = 1; gs_.y = 0x80000000; gs_.z = 0x7fffffffffffffffull; u64 ra, rc, rt, m1; u8 fc, fz; u64 before = 0x1122334455667788ull, arr[2] = {{7, 9}};
ASM {{
mov rax, a
mov rcx, ga
mov r10, 0x8000000000000001
movq xmm1, rax
movq xmm2, rcx
xor edx, edx
""" + '\n'.join(ops) + """
setc fc
setz fz
mov ra, rax
mov rc, rcx
mov rt, r10
movq m1, xmm1
}
O(a); O(b); O(c); O(d); O(s.x); O(s.w); O(s.y); O(s.z); O(ga); O(gc); O(gd); O(ge); O(gs_.x); O(gs_.w); O(gs_.y); O(gs_.z); O(ra); O(rc); O(rt); O(m1); O(fc); O(fz); O(before); O(arr[0] * arr[1]);"""
    return Item(key, body, nobs=24)


UNDEF = re.compile(r'(shl|shr|sar|rol|rcr|mul|imul|bts|btr|bsf)\b')


def exec_seq(c):
    V = [('0x8877665544332211', '0x1020304050607080', '0xffff', '0x80'), ('0', '0xffffffffffffffff', '0', '1')]
    ops = exec_ops()
    its = []
    for v in range(2):
        its += [exec_item([o], f'exec/{v}/{o}', V[v]) for o in ops]
    small = [o for i, o in enumerate(ops) if c.thorough or i % 2 == 0]
    for x, y in itertools.product(ops, small):
        its.append(exec_item([x, y], f'exec/0/{x}; {y}', V[0]))
    if c.thorough:
        t = ops[::5]
        its += [exec_item(list(p), f'exec/1/{"; ".join(p)}', V[1]) for p in itertools.product(t, repeat=3)]
    # operands of every kind of storage, size and type; labels and jumps
    T = [('u8', 'al', 'cl'), ('s16', 'ax', 'cx'), ('u32', 'eax', 'ecx'), ('s64', 'rax', 'rcx'), ('float', 'xmm1', None), ('double', 'xmm1', None), ('vp', 'rax', 'rcx')]
    for t, r0, r1 in T:
        for stor in ('local', 'static', 'param', 'global', 'tls', 'member', 'nested', 'elem', 'gelem', 'deref', 'memberelem'):
            v = {'local': 'v', 'static': 'v', 'param': 'v', 'global': 'G@', 'tls': 'GT%', 'member': 'm.v', 'nested': 'm.n.w', 'elem': 'e[2]', 'gelem': 'GA@[3]', 'deref': '[p]', 'memberelem': 'm.ar[1]'}[stor]
            mv = {'float': 'movss', 'double': 'movsd'}.get(t, 'mov')
            g, ga = 'G%', 'GA%'
            v = v.replace('GA@', ga).replace('G@', g)
            decl = f'struct M{g} {{ {t} pad; {t} v; struct {{ char c; {t} w; }} n; {t} ar[3]; }}; {t} {g}; {t} {ga}[5]; ' + (f'TL {t} GT%;' if stor == 'tls' else '') + '\n'
            pre = {'local': f'{t} v', 'static': f'static {t} v', 'member': f'struct M{g} m = {{0}}', 'nested': f'struct M{g} m = {{0}}', 'memberelem': f'struct M{g} m = {{0}}', 'elem': f'{t} e[4] = {{0}}', 'deref': f'{t} tt = 0; {t} *p = &tt'}.get(stor, '')
            cv = v.replace('[p]', '*p')
            val = f'({t})(u64)0x8182838485868788ull' if t not in ('float', 'double') else f'({t})-1.5'
            for op in ('load', 'store') + (('imm', 'rmw') if r1 else ('add',)):
                A = {'load': f'{mv} {r0}, {v}\n{mv} out, {r0}', 'store': f'{mv} {r0}, in\n{mv} {v}, {r0}', 'imm': f'mov {v}, 91', 'rmw': f'mov {r1 or ""}, in\nadd {v}, {r1}', 'add': f'{mv} {r0}, {v}\nadd{mv[3:]} {r0}, {v}\n{mv} out, {r0}'}[op]
                R = {'load': f'out = {cv};', 'store': f'{cv} = in;', 'imm': f'{cv} = ({t})91;', 'rmw': f'{cv} = ({t})((u64){cv} + (u64)in);', 'add': f'out = {cv} + {cv};'}[op]
                core = f'{pre}; volatile u64 before = 5; {t} in = ({t})7, out = ({t})3; volatile u64 after = 6; {cv} = {val};\n#ifdef HLC\n__asm__ {{\n{A}\n}}\n#else\n{R}\n#endif\n'
                ob = 'OD((double){})' if t in ('float', 'double') else 'O((u64){})'
                end = ' '.join(ob.format(x) + ';' for x in ('in', 'out', cv)) + f' O(before); O(after);' + (f' for(int i = 0; i < 4; i++) {ob.format("e[i]")};' if stor == 'elem' else '') + (f' for(int i = 0; i < 5; i++) {ob.format(ga + "[i]")};' if stor == 'gelem' else '') + (f' {ob.format("m.pad")}; {ob.format("m.v")}; {ob.format("m.n.w")}; O(m.n.c); {ob.format("m.ar[0]")}; {ob.format("m.ar[1]")}; {ob.format("m.ar[2]")};' if stor in ('member', 'nested', 'memberelem') else '')
                k = f'operand/{t}/{stor}/{op}'
                if stor == 'param':
                    body, dd = f'f{g}{op}(1, ({t})2, 3, 4, ({t})5);', decl + f'void f{g}{op}(int x, {t} w, int y, int z, {t} v){{ {core} {end} O((u64)x); O((u64)y); O((u64)z); }}'
                else:
                    body, dd = core + end, decl
                its.append(Item(k, body.replace('%', str(len(its))), decl=dd.replace('%', str(len(its))), nobs=16))
    for cc, neg in [('o', 'no'), ('c', 'nc'), ('z', 'nz'), ('be', 'nbe'), ('s', 'ns'), ('p', 'np'), ('l', 'nl'), ('le', 'nle')]:
        for x in (cc, neg):
            for a, b in itertools.product(['0', '1', '-1', '2147483647', '(-2147483647 - 1)', '3'], repeat=2):
                its.append(Item(f'jump/j{x}/{a},{b}', f's32 a = {a}, b = {b}, r = 0, n = 5; u8 q = 0; ASM {{\nB:\nmov eax, a\ncmp eax, b\nset{x} q\nj{x} J(L)\nmov r, 1\nL:\nadd r, 2\nsub a, 1\nsub n, 1\njnz J(B)\n}}\nO(r); O(q); O(a); O(n);', nobs=4))
    Diff(c, batch=60, head=HEAD + PRE, hlc_pre='#define ASM __asm__\n#define HLC\n#define TL __declspec(thread)\n#define J(x) .x\n', ref_pre='#define ASM __asm\n#define TL\n#define J(x) x\n', ref_opt='-O0', ref_flags=['-fasm-blocks', '-march=haswell']).run(its)


def body(ctx):
    r = Run(ctx)
    gen_forms(r, ctx.thorough)
    exec_seq(ctx)


if __name__ == '__main__':
    main('C19', 'exploration', body)
