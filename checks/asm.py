"""Assembling lists of instructions with hlc (as __asm__ blocks) and with llvm-mc, and decoding both."""
import os, re, subprocess, struct

MC = ['llvm-mc-18', '-triple=x86_64-pc-windows-msvc', '-mattr=+avx2,+aes,+bmi,+bmi2,+lzcnt,+popcnt,+sse4.2,+fma,+pclmul,+cx16,+avx512f,+avx512vl,+xsave,+adx,+mmx', '-x86-asm-syntax=intel', '-output-asm-variant=1']
ARGS = 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll'
A, B = bytes.fromhex('e1d2c3b4'), bytes.fromhex('4b3c2d1e')


WIDTH = {}
for _r in 'ax cx dx bx sp bp si di'.split():
    WIDTH.update({_r: 16, 'e' + _r: 32, 'r' + _r: 64})
WIDTH.update({x: 8 for x in 'al cl dl bl spl bpl sil dil'.split()})
for _i in range(8, 16):
    WIDTH.update({f'r{_i}b': 8, f'r{_i}w': 16, f'r{_i}d': 32, f'r{_i}': 64})


def mc_valid(lines, chunk=4000):
    """The printed form and encoding of every line, None for those llvm-mc does not accept."""
    res = [None] * len(lines)
    for c in range(0, len(lines), chunk):
        part = lines[c:c + chunk]
        src = '.intel_syntax noprefix\n' + '\n'.join(part) + '\n'
        p = subprocess.run(MC + ['--assemble', '--show-encoding'], input=src, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        bad = {int(m[1]) - 2 for m in re.finditer(r'<stdin>:(\d+):\d+: error', p.stderr)}
        ok = [i for i in range(len(part)) if i not in bad]
        p = subprocess.run(MC + ['--assemble', '--show-encoding'], input='.intel_syntax noprefix\n' + '\n'.join(f'LX{i}:\n{part[i]}' for i in ok) + '\n', text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise Exception('llvm-mc: ' + p.stderr[:500])
        cur = None
        for l in p.stdout.split('\n'):
            m = re.match(r'LX(\d+):', l)
            if m:
                cur = c + int(m[1])
                res[cur] = b''
            m = re.search(r'# encoding: \[(.*)\]', l)
            if m:
                if "'" in m[1] or 'A' in re.sub(r'0x[0-9a-f]+', '', m[1]):
                    res[cur] = None
                    continue
                res[cur] += bytes(int(x, 16) for x in m[1].split(','))
    return res


def norm(t):
    t = re.sub(r'\s+', ' ', t.strip())
    t = t.replace('movabs ', 'mov ')
    t = re.sub(r' \+ \d\*riz', '', t)   # a SIB byte without index
    if re.match(r'(rol|ror|rcl|rcr|shl|shr|sar) [^,]*$', t):
        t += ', 1'
    m = re.match(r'(\w+ )(?:(byte|word|dword|qword) ptr (.*)|([a-z]+\d*[a-z]?)), (-?\d+)$', t)
    if m and (m[2] or m[4] in WIDTH):   # the immediate modulo the operand size
        w = {'byte': 8, 'word': 16, 'dword': 32, 'qword': 64}[m[2]] if m[2] else WIDTH[m[4]]
        v = int(m[5]) & (1 << w) - 1
        t = t[:m.start(5)] + str(v - (1 << w) if v >> (w - 1) else v)
    m = re.match(r'(xchg|test) (.*), (.*)$', t)
    if m:
        t = f'{m[1]} ' + ', '.join(sorted([m[2], m[3]]))
    m = re.match(r'(vaddps|vmulps|vpminub|vpxor|vpcmpeqb) (\S+), (.mm\d+), (.mm\d+)$', t)   # llvm-mc swaps the operands of commutative instructions for a shorter encoding
    if m:
        t = f'{m[1]} {m[2]}, ' + ', '.join(sorted([m[3], m[4]]))
    return t


def decode(codes):
    if len(codes) > 2000:
        return [t for i in range(0, len(codes), 2000) for t in decode(codes[i:i + 2000])]
    """Text of every byte string (several instructions joined by '; ')."""
    sep = '0xf4,0x0f,0x0b,0xf4,0x0f,0x0b'
    src = '\n'.join(','.join(f'0x{b:02x}' for b in c) + ('\n' if c else '') + sep for c in codes) + '\n'
    p = subprocess.run(MC + ['--disassemble'], input=src, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    bad = {int(m[1]) for m in re.finditer(r'<stdin>:(\d+):\d+: warning', p.stderr)}
    out, cur, hist = [], [], []
    for l in p.stdout.split('\n'):
        l = l.strip()
        if not l or l.startswith('.'):
            continue
        hist.append(norm(l))
        if hist[-4:] == ['hlt', 'ud2', 'hlt', 'ud2']:
            out.append('; '.join(hist[:-4]))
            hist = []
    if bad or len(out) != len(codes):
        # something does not decode
        if len(codes) == 1:
            p = subprocess.run(MC + ['--disassemble'], input=','.join(f'0x{b:02x}' for b in codes[0]) + '\n', text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return ['; '.join(norm(l) for l in p.stdout.split('\n') if l.strip() and not l.strip().startswith('.')) + ' (does not decode)']
        h = len(codes) // 2
        return decode(codes[:h]) + decode(codes[h:])
    return out


def mark(i):
    b = A + struct.pack('<I', i)
    e = B + struct.pack('<I', i)
    return [' '.join(f'0x{x:02x}' for x in v) for v in (b, e)]


def hlc_asm(e, lines, pre='', args=ARGS):
    """For every line: bytes | 'rejected: message' | 'crash: …'."""
    res = [None] * len(lines)

    def go(idx):
        src = pre + ''.join(f'__declspec(dllexport) void f{i}(void){{ __asm__{{ bytes {{ {mark(i)[0]} }} {lines[i]}\\\n bytes {{ {mark(i)[1]} }} }} }}\n'.replace('\\\n', '\n') for i in idx)
        base = pre.count('\n')
        r = e.compile({'a.c': src}, args)
        out = r.out.decode('latin1')
        if r.kind == 'exit' and r.code == 0:
            img = r.files['a.dll']
            for i in idx:
                s = img.find(A + struct.pack('<I', i))
                t = img.find(B + struct.pack('<I', i), s)
                res[i] = img[s + 8:t] if s >= 0 and t >= 0 else 'crash: markers not found'
            return
        errs = {}
        if r.kind == 'exit' and r.code == 1:
            for m in re.finditer(r'a\.c\((\d+),\d+\): Error[^:]*: (.*)', out):
                errs.setdefault((int(m[1]) - 1 - base) // 2, m[2])
        errs = {k: v for k, v in errs.items() if 0 <= k < len(idx)}
        if errs:
            for k, v in errs.items():
                res[idx[k]] = 'rejected: ' + v
            rest = [x for k, x in enumerate(idx) if k not in errs]
            if rest:
                go(rest)
        elif len(idx) > 1:
            h = len(idx) // 2
            go(idx[:h])
            go(idx[h:])
        else:
            res[idx[0]] = f'crash: {r.kind} {r.code:#x} {out[-300:]}'
    n = 100
    e.map(go, [list(range(i, min(i + n, len(lines)))) for i in range(0, len(lines), n)])
    return res
