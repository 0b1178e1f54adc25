"""C27: the intrinsic functions compute what their documentation says: every function of intrin.h/immintrin.h that the compiler provides x boundary values x forms of use,
compared with another compiler's implementation of the same function."""
from common import *
import struct, re

FLAGS = ['-ffreestanding', '-mavx2', '-maes', '-mbmi', '-mbmi2', '-mlzcnt', '-mpopcnt', '-msse4.2', '-mfma', '-mpclmul', '-Wno-everything']
HD = HEAD + '#include <intrin.h>\n' + '''
static u64 h_;
static void hb(void *p, u64 n){ u8 *b = p; u64 h = h_; for(u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; h_ = h; }
#define H(x) hb(&(x), sizeof(x))
static int boom(void){ double d = 3.25; volatile u64 x[6]; for(int i = 0; i < 6; i++) x[i] = i * 0x1111111111111111; return (int)(d * x[1]) & 1; }
typedef union { u8 b[96]; u64 q[12]; } MEM;
static __declspec(align(32)) MEM mem_;
static u64 oldcsr_;
'''
SCAL = {  # canonical C type -> values
    'u8': [0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x5a],
    'u16': [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x5aa5],
    'u32': [0, 1, 2, 3, 31, 32, 0x7f, 0x80, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x5aa5c33c, 0x3f803000],
    'u64': [0, 1, 2, 3, 63, 64, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0x5aa5c33c0ff01248],
}
F32 = [0.0, -0.0, 1.5, -2.5, 0.5, 1e38, -1e38, 1e-40, 3e9, 2147483648.0, -2147483904.0, float('inf'), float('-inf'), float('nan'), 16777217.0, 1e-30]
F64 = [0.0, -0.0, 1.5, -2.5, 0.5, 1e300, -1e300, 1e-310, 3e9, 2147483648.0, 9.3e18, float('inf'), float('-inf'), float('nan'), 4503599627370497.5, 1e-300]


def vectors():
    v = [bytes(16), b'\xff' * 16, bytes(range(16)), b'\x80\x7f' * 8, struct.pack('<8H', 0, 1, 0xffff, 0x7fff, 0x8000, 0x100, 0x8001, 0x55aa), struct.pack('<4I', 0x80000000, 0x7fffffff, 0xffffffff, 1),
         struct.pack('<4f', 0.0, -0.0, 1.5, -2.25), struct.pack('<2I2f', 0x7fc00001, 0xff800000, float('inf'), 3.0), struct.pack('<4f', -0.0, 1e38, -1e-40, 3.5e9), struct.pack('<4f', 2147483648.0, -2147483904.0, 2.5, 1e19),
         struct.pack('<2d', 1.5, -2.5), struct.pack('<Qd', 0x7ff8000000000001, float('inf')), struct.pack('<2d', -0.0, 4294967297.5), struct.pack('<2d', 1e300, -9.3e18), struct.pack('<2d', 1.5, 1e-310),
         struct.pack('<2Q', 3, 0), struct.pack('<2Q', 15, 1), struct.pack('<2Q', 16, 0), struct.pack('<2Q', 64, 0xffff), struct.pack('<2Q', 1 << 40, 5), b'abcabca\0xyzabc\0d', b'cab\0efghijklmnop', b'\x0f\x8e\x01\x00\x83\x07\x77\x09\x10\x1f\x2a\xff\x03\x0c\x04\x05']
    return v


VEC = {'__m128': 16, '__m128d': 16, '__m128i': 16, '__m256': 32, '__m256i': 32}
CANON = {'char': 's8', '__int8': 's8', 'unsigned char': 'u8', 'unsigned __int8': 'u8', 'short': 's16', '__int16': 's16', 'unsigned short': 'u16', 'unsigned __int16': 'u16', 'int': 's32', '__int32': 's32', 'long': 's32',
         'unsigned int': 'u32', 'unsigned __int32': 'u32', 'unsigned long': 'u32', '__int64': 's64', 'long long': 's64', 'unsigned __int64': 'u64'}


def nvals(t):
    if t in VEC:
        return len(vectors())
    if t in ('float', 'double'):
        return 16
    return len(SCAL['u' + CANON[t][1:]])


def tables():
    s = []
    v = vectors()
    n = len(v)
    for t, k in VEC.items():
        raw = b''.join(x if k == 16 else x + v[(i * 5 + 3) % n] for i, x in enumerate(v))
        s.append(f'static __declspec(align(32)) u64 raw{t}[] = {{{",".join(hex(x) + "ull" for x in struct.unpack(f"<{len(raw) // 8}Q", raw))}}};\n#define V{t}(i) (((const {t} *)raw{t})[i])')
    s.append('static u32 rawfloat[] = {%s};\n#define Vfloat(i) (((float *)rawfloat)[i])' % ','.join(hex(struct.unpack('<I', struct.pack('<f', f))[0]) for f in F32))
    s.append('static u64 rawdouble[] = {%s};\n#define Vdouble(i) (((double *)rawdouble)[i])' % ','.join(hex(struct.unpack('<Q', struct.pack('<d', f))[0]) + 'ull' for f in F64))
    for t, vals in SCAL.items():
        s.append(f'static {t} raw{t}[] = {{{",".join(hex(x) + "ull" for x in vals)}}};\n#define V{t}(i) (raw{t}[i])\n#define Vs{t[1:]}(i) (((s{t[1:]} *)raw{t})[i])')
    for t in list(VEC) + ['float', 'double', 's8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64']:
        s.append(f'static {t} id{t}({t} x){{ if(boom() == 7) return V{t}(0); return x; }}\nstatic {t} mix{t}(u64 a, {t} x, u64 b){{ H(a); H(b); return x; }}')
    return '\n'.join(s) + '\n'


IMM = {'_mm_shuffle_pd': 4, '_mm_extract_epi16': 8, '_mm_insert_epi16': 8, '_mm_extract_epi32': 4, '_mm_extract_epi64': 2, '_mm_prefetch': 4}
QI = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 0x1b, 0x4e, 0x93, 0xb1, 0xd8, 0xe4, 0xee, 0x44, 0x55, 0xaa, 0xf0, 0x0f, 0x39, 0x72, 254, 255]


def fns():
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'intrin.txt')):
        r, n, p = l.rstrip('\n').split('|')
        yield r, n, [x.strip() for x in p.split(',') if x.strip()]


# functions whose arguments must be restricted
def special(name):
    return {
        '__builtin_ctz': 'if(!a0) continue;', '__builtin_clz': 'if(!a0) continue;', '_udiv128': 'if(a0 >= a2) continue;',
        '_xgetbv': 'a0 = 0;', '_mm_setcsr': 'a0 = 0x1f80 | (a0 & 0xe03f);', '_MM_SET_EXCEPTION_MASK': 'a0 = 0x1f80;', '_MM_SET_EXCEPTION_STATE': 'a0 &= 0x3f;', '_MM_SET_ROUNDING_MODE': 'a0 &= 0x6000;', '_MM_SET_FLUSH_ZERO_MODE': 'a0 &= 0x8000;',
        '_addcarry_u8': 'a0 &= 1;', '_addcarry_u16': 'a0 &= 1;', '_addcarry_u32': 'a0 &= 1;', '_addcarry_u64': 'a0 &= 1;',
        '_bittest': 'a1 &= 127; a1 -= 64;', '_bittestandset': 'a1 &= 127; a1 -= 64;', '_bittestandreset': 'a1 &= 127; a1 -= 64;', '_bittestandcomplement': 'a1 &= 127; a1 -= 64;',
        '_bittest64': 'a1 &= 127; a1 -= 64;', '_bittestandset64': 'a1 &= 127; a1 -= 64;', '_bittestandreset64': 'a1 &= 127; a1 -= 64;', '_bittestandcomplement64': 'a1 &= 127; a1 -= 64;',
        '__stosb': 'a2 %= 20;', '__stosw': 'a2 %= 12;', '__stosd': 'a2 %= 7;', '__stosq': 'a2 %= 5;', '__movsb': 'a2 %= 20;', '__movsw': 'a2 %= 12;', '__movsd': 'a2 %= 7;', '__movsq': 'a2 %= 5;',
    }.get(name, 'a0 = 0x28;' if re.match(r'__(inc|add|read|write)gs', name) else '')


def items(c):
    out = []
    for ret, name, ps in fns():
        R = CANON.get(ret, ret)
        vals = [(i, CANON.get(p, p)) for i, p in enumerate(ps) if p != 'imm' and '*' not in p]
        imms = [None]
        if 'imm' in ps:
            k = IMM.get(name, 256)
            imms = [x for x in (range(256) if c.thorough else QI) if x < k]
        loops = vals[:2] if len(vals) > 3 else vals[:3]
        dims = []
        for (i, t), var in zip(loops, 'ijk'):
            n = nvals(ps[i])
            if len(loops) == 3 and t in VEC:
                n = min(n, 12)
            dims.append((var, n))
        mems = [i for i, p in enumerate(ps) if '*' in p]
        base = (['V%s(%s)' % (t, v) for (_, t), (v, _) in zip(loops, dims)] +
                ['V%s((i * 3 + j + %d) %% %d)' % (t, q * 5, nvals(ps[q])) for q, t in vals[len(loops):]])
        gs = bool(re.match(r'__(inc|add|read|write)gs', name))
        csr = 'csr' in name or name.startswith('_MM_')

        def call(argf, imm, name=name, ps=ps, mems=mems):
            a, vi = [], 0
            for i, p in enumerate(ps):
                if p == 'imm':
                    a.append(str(imm))
                elif '*' in p:
                    a.append(f'({p})(mem_.b + {32 + 32 * (mems.index(i))})' if mems.index(i) == 0 or len(mems) < 2 else f'({p})(mem_.b + {8})')
                else:
                    a.append(argf(vi))
                    vi += 1
            return f'{name}({", ".join(a)})'
        fix = ''
        if name.startswith('_BitScan'):
            fix = 'if(!r) mem_.q[4] = 0;'
        forms = {}
        loc = lambda q: f'a{vals[q][0]}'
        prep = ' '.join(f'{t} a{q} = {b};' for (q, t), b in zip(vals, base)) + ' ' + special(name)
        keep = ' '.join(f'H(a{q});' for q, t in vals)
        has = ret != 'void'
        restricted = bool(special(name))
        forms['local'] = lambda imm: (f'{ret} r = ' if has else '') + call(loc, imm) + ';' + (f' {fix} H(r);' if has else '') + keep
        if not restricted:
            forms['elem'] = lambda imm: (f'{ret} r = ' if has else '') + call(lambda q: base[q], imm) + ';' + (f' {fix} H(r);' if has else '')
        if vals:
            forms['call'] = lambda imm: (f'{ret} r = ' if has else '') + call(lambda q: f'id{vals[q][1]}({loc(q)})', imm) + ';' + (f' {fix} H(r);' if has else '') + keep
            forms['deref'] = lambda imm: ' '.join(f'{t} *p{q} = &a{q};' for q, t in vals) + (f'{ret} r = ' if has else '') + call(lambda q: f'*p{vals[q][0]}', imm) + ';' + (f' {fix} H(r);' if has else '') + keep
            if not fix:
                st = 'struct { u8 x; ' + ' '.join(f'{t} m{q}; u8 y{q};' for q, t in vals) + ' } s; ' + ' '.join(f's.m{q} = a{q}; s.y{q} = 7;' for q, t in vals)
                forms['member'] = lambda imm: st + (f'{ret} r = ' if has else '') + call(lambda q: f's.m{vals[q][0]}', imm) + ';' + (' H(r);' if has else '') + keep + ' '.join(f'H(s.y{q});' for q, t in vals)
                if has:
                    forms['into'] = lambda imm: f'struct {{ u8 x; {ret} m; u8 y; }} s = {{0}}; s.x = 9; s.y = 8; s.m = ' + call(loc, imm) + f'; H(s.x); H(s.m); H(s.y); {ret} q[3]; {ret} *p = q + 1; *p = ' + call(loc, imm) + '; H(*p);' + keep
        if has and not fix:
            if R in VEC or R in ('float', 'double') or R in CANON.values():
                forms['arg'] = lambda imm: f'u64 k = n_ * 3; {ret} r = mix{R}(k * 5 + 1, {call(loc, imm)}, k * 7 + n_); H(r);' + keep
            if R in CANON.values():
                forms['live'] = lambda imm: f'u64 k = n_ * 3; u64 r = (k * 5 + 1) * 3 + (u64){call(loc, imm)} * (k + 7) - (k ^ (u64){call(loc, imm)}); H(r);' + keep
                forms['cond'] = lambda imm: f'u64 r = 1; if({call(loc, imm)}) r = 5; r += {call(loc, imm)} > 0 ? n_ : 2; for(u64 w = 0; w < 2 && {call(loc, imm)}; w++) r++; H(r);' + keep
            if R in ('float', 'double'):
                forms['live'] = lambda imm: f'double k = n_ * 0.5; double r = (k * 5 + 1) * 3 + {call(loc, imm)} * (k + 7); H(r);' + keep
            if vals and vals[0][1] == R and not restricted:
                forms['nest'] = lambda imm: f'{ret} r = {call(lambda q: call(loc, imm) if q == 0 else loc(q), imm)}; H(r);' + keep
                if len(vals) >= 2 and vals[1][1] == R:
                    forms['nest2'] = lambda imm: f'{ret} r = {call(lambda q: call(loc, imm) if q < 2 else loc(q), imm)}; H(r);' + keep
            forms['ret'] = None
        elif not has:
            forms['comma'] = lambda imm: f'u64 k = n_ * 3; u64 r = (k * 5 + 1) * 3 + ({call(loc, imm)}, k + 2); H(r);' + keep
        big = len(dims) == 3
        for fn, f in forms.items():
            body, decl = [], ''
            wrap = fn == 'ret'
            if wrap:
                decl = ''.join(f'static {ret} w{q}_@({", ".join(f"{t} a{i}" for i, t in vals) or "void"}){{ return {call(loc, imm)}; }}\n' for q, imm in enumerate(imms))
            im = imms if fn in ('local', 'elem') else imms[:9]
            body.append('u64 n_ = 0;')
            for q, imm in enumerate(im):
                lp = ' '.join(f'for(u64 {v} = 0; {v} < {n}; {v}++)' for v, n in dims)
                if mems or gs:
                    prem = 'for(int z = 0; z < 12; z++) mem_.q[z] = raw__m128i[(n_ + z) % 40];'
                else:
                    prem = ''
                pre2 = 'u64 teb = __readgsqword(0x30); u64 sv = *(u64 *)(teb + 0x28); *(u64 *)(teb + 0x28) = mem_.q[5];' if gs else 'oldcsr_ = _mm_getcsr(); _mm_setcsr(0xbfa5);' if csr else ''
                post = '*(u64 *)(teb + 0x28) += 0; hb((void *)(teb + 0x28), 8); *(u64 *)(teb + 0x28) = sv;' if gs else '{ u32 now = _mm_getcsr(); _mm_setcsr((u32)oldcsr_); H(now); }' if csr else ''
                if mems:
                    post += ' H(mem_);'
                if wrap:
                    code = f'{ret} r = w{q}_@({", ".join(loc(x) for x in range(len(vals)))}); H(r);'
                else:
                    code = f(imm)
                every = f' if(n_ % {7 if not c.thorough else 1} == 0)' if big and fn != 'local' else ''
                body.append(f'h_ = 77; {lp} {{ n_++; {"if(n_ % 7) continue;" if every and not c.thorough else ""} {prep} {prem} {pre2} {code} {post} }} O(h_);')
            out.append(((name, fn), decl, '\n'.join(body), len(im)))
    return uniq(out)


REF_PRE = '''#include <intrin.h>
#define __writegsbyte(o, v) (*(unsigned char __attribute__((address_space(256))) *)(u64)(o) = (v))
#define __addgsbyte(o, v) (void)(*(unsigned char __attribute__((address_space(256))) *)(u64)(o) += (v))
#define __incgsbyte(o) (void)(++*(unsigned char __attribute__((address_space(256))) *)(u64)(o))
#define __writegsword(o, v) (*(unsigned short __attribute__((address_space(256))) *)(u64)(o) = (v))
#define __addgsword(o, v) (void)(*(unsigned short __attribute__((address_space(256))) *)(u64)(o) += (v))
#define __incgsword(o) (void)(++*(unsigned short __attribute__((address_space(256))) *)(u64)(o))
#define __writegsdword(o, v) (*(unsigned int __attribute__((address_space(256))) *)(u64)(o) = (v))
#define __addgsdword(o, v) (void)(*(unsigned int __attribute__((address_space(256))) *)(u64)(o) += (v))
#define __incgsdword(o) (void)(++*(unsigned int __attribute__((address_space(256))) *)(u64)(o))
#define __writegsqword(o, v) (*(unsigned long long __attribute__((address_space(256))) *)(u64)(o) = (v))
#define __addgsqword(o, v) (void)(*(unsigned long long __attribute__((address_space(256))) *)(u64)(o) += (v))
#define __incgsqword(o) (void)(++*(unsigned long long __attribute__((address_space(256))) *)(u64)(o))
#define _byteswap_ushort __builtin_bswap16
#define _byteswap_ulong __builtin_bswap32
#define _byteswap_uint64 __builtin_bswap64
static unsigned long long ref_udiv128(unsigned long long h, unsigned long long l, unsigned long long d, unsigned long long *r){ __asm__("divq %2" : "+a"(l), "+d"(h) : "r"(d)); *r = h; return l; }
#define _udiv128 ref_udiv128
#define _mm_cvtsi64x_sd _mm_cvtsi64_sd
#define _mm_cvtsi64x_si128 _mm_cvtsi64_si128
#define _mm_cvtsd_si64x _mm_cvtsd_si64
#define _mm_cvttsd_si64x _mm_cvttsd_si64
#define _mm_cvtsi128_si64x _mm_cvtsi128_si64
#define _addcarry_u8 ref_addcarry8
#define _addcarry_u16 ref_addcarry16
static unsigned char ref_addcarry8(unsigned char c, unsigned char a, unsigned char b, unsigned char *o){ unsigned s = a + b + (c != 0); *o = (unsigned char)s; return s >> 8; }
static unsigned char ref_addcarry16(unsigned char c, unsigned short a, unsigned short b, unsigned short *o){ unsigned s = a + b + (c != 0); *o = (unsigned short)s; return s >> 16; }
'''


def body(c):
    c.cov['rule'] = 'an evaluation is one function in one form of use over all its values (up to 16^3 argument tuples, all immediates); non-trivial when at least one observation is non-zero'
    d = Diff(c, args='a.c /dll /no_entry /no_stdlib /quiet /no_debug /I . /out a.dll', head=HD + tables(), ref_flags=FLAGS, ref_pre=REF_PRE, batch=70, ro={'malloc.h': '#pragma once\n', 'stddef.h': '#pragma once\ntypedef unsigned long long size_t; typedef long long ptrdiff_t; typedef unsigned short wchar_t;\n'})
    its = items(c)
    if os.environ.get('HX_ONLY'):
        its = [i for i in its if os.environ['HX_ONLY'] in i.key]
    c.cov['functions'] = len({i.key.split('/')[0] for i in its})
    for i in (0, len(its) // 2):
        c.sample(its[i].key + ': ' + its[i].body[:300])
    d.run(its)


if __name__ == '__main__':
    main('C27', 'exploration', body)
