from common import *
import itertools

PRE = '''
static u64 HB(void *p, u64 n){ u8 *b = p; u64 h = 1469598103934665603ull; for(u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static void Z(void *p, u64 n){ u8 *b = p; for(u64 i = 0; i < n; i++) b[i] = 0; }
typedef struct { s8 a; s16 b; } SA; typedef struct { s8 a[3]; } SB; typedef union { s64 a; s8 b[9]; } UA; typedef struct __declspec(align(16)) { s32 x; } SX; typedef struct { s32 f : 5; s8 c; } SF; typedef enum { E0, E1 } EN;
typedef struct { double d; s8 c; } SD; typedef struct { s8 a; SX b; } SY; typedef s32 fnp(s32);
'''
REF_PRE = '#define PACKED __attribute__((packed))\n#define va_list __builtin_va_list\n'
HLC_PRE = '#define PACKED __declspec(packed)\n'


def struct_item(key, members, kind='struct', attr='', pack=None, tail=''):
    """members: list of (decl with %s for the name, kind) kind in scalar/bits/agg/none"""
    ms, body = '', ''
    T = f'{kind} T_@'
    n = 0
    for i, (d, k) in enumerate(members):
        nm = f'm{i}'
        ms += (d % nm if '%s' in d else d) + '; '
        if k == 'none':
            continue
        if k != 'bits':
            body += f'O((u64)&(({T} *)0)->{nm}); O(sizeof((({T} *)0)->{nm})); '
            n += 2
        if k in ('bits', 'scalar'):
            body += f'Z(&v, sizeof(v)); v.{nm} = -1; O(HB(&v, sizeof(v))); O(v.{nm}); '
            n += 2
        elif k == 'agg':
            body += f'Z(&v, sizeof(v)); *(s8 *)&v.{nm} = -1; O(HB(&v, sizeof(v))); '
            n += 1
    p0, p1 = (f'#pragma pack(push, {pack})\n', '\n#pragma pack(pop)\n') if pack else ('', '')
    decl = f'{p0}{kind} {attr} T_@ {{ {ms}}};{p1}struct N_@ {{ s8 c; {'' if 'fl[]' in ms else T + ' t; s8 d;'} {T + ' t;' if 'fl[]' in ms else ''} }}; static u64 z_@[] = {{sizeof({T}), _Alignof({T}), sizeof(struct N_@)}};'
    body = f'{T} v; O(sizeof({T})); O(_Alignof({T})); O(sizeof(struct N_@)); O((u64)&((struct N_@ *)0)->t); O((u64)&(({T} *)0)[3]); O(z_@[0]); O(z_@[1]); O(z_@[2]); ' + body + tail
    return (key, decl, body, n + 8 + tail.count('O('))


PLAIN = [('s8 %s', 'scalar'), ('s16 %s', 'scalar'), ('s32 %s', 'scalar'), ('s64 %s', 'scalar'), ('double %s', 'agg'), ('s32 (*%s)[3]', 'agg'), ('s8 %s[3]', 'agg'), ('s16 %s[2][3]', 'agg'),
         ('SA %s', 'agg'), ('SB %s', 'agg'), ('UA %s', 'agg'), ('SX %s', 'agg'), ('EN %s', 'scalar'), ('fnp *%s', 'agg'), ('SD %s', 'agg'), ('_Bool %s', 'agg'), ('float %s', 'agg'), ('SF %s', 'agg'), ('SX %s[2]', 'agg'), ('SY %s', 'agg')]
BITS = [('u8 %s : 1', 'bits'), ('s8 %s : 3', 'bits'), ('u8 %s : 8', 'bits'), ('u16 %s : 5', 'bits'), ('s16 %s : 11', 'bits'), ('s32 %s : 1', 'bits'), ('u32 %s : 7', 'bits'), ('s32 %s : 17', 'bits'), ('u32 %s : 32', 'bits'),
        ('s64 %s : 3', 'bits'), ('u64 %s : 33', 'bits'), ('u64 %s : 64', 'bits'), ('s8 %s', 'scalar'), ('s32 %s', 'scalar'), ('s64 %s', 'scalar'), ('long %s : 9', 'bits'),
        ('u8 : 3', 'none'), ('u32 : 5', 'none'), ('u64 : 40', 'none'), ('u8 : 0', 'none'), ('u32 : 0', 'none'), ('u64 : 0', 'none')]
AL = ['__declspec(align(2))', '__declspec(align(4))', '__declspec(align(8))', '__declspec(align(16))', '__declspec(align(64))', '_Alignas(8)', '_Alignas(16)', '_Alignas(double)']


def nm(ms):
    return ';'.join(m[0].replace('%s', '').replace(' ', '') for m in ms)


def items(th):
    for kind in ('struct', 'union'):
        for pack in (None, 1, 2, 4, 8, 16):
            al = PLAIN if pack in (None, 1, 2) or th else PLAIN[:8]
            for n in (1, 2, 3) if kind == 'struct' else (1, 2):
                if n == 3 and not th:
                    al = [PLAIN[i] for i in (0, 1, 2, 3, 4, 6, 8, 10, 11)] if pack is None else [PLAIN[i] for i in (0, 1, 2, 3, 8, 11)]
                for ms in itertools.product(al, repeat=n):
                    yield struct_item(f'{kind}/{pack}/{nm(ms)}', ms, kind, pack=pack)
            for n in (1, 2, 3) if kind == 'struct' else (1, 2):
                al = BITS
                if n == 3 and pack not in (None, 1) and not th:
                    continue
                if n == 3 and pack == 1 and not th:
                    al = [BITS[i] for i in (0, 1, 3, 6, 7, 8, 9, 10, 12, 13, 17, 20)]
                for ms in itertools.product(al, repeat=n):
                    if any(': 0' not in m[0] for m in ms):   # an object without any bits has size zero here by design
                        yield struct_item(f'{kind}/{pack}/{nm(ms)}', ms, kind, pack=pack)
    if th:
        al = [BITS[i] for i in (1, 3, 6, 7, 9, 12, 13, 17, 20)]
        for ms in itertools.product(al, repeat=4):
            yield struct_item(f'struct/4/{nm(ms)}', ms)
    for ms in itertools.product([PLAIN[i] for i in (0, 1, 2, 3, 8)], repeat=4):
        yield struct_item(f'struct/4/{nm(ms)}', ms)
    # every width of every type, after a filler of every width
    for t, w in (('u8', 8), ('s16', 16), ('u32', 32), ('s32', 32), ('u64', 64), ('s64', 64)):
        for a in range(1, w + 1):
            for b in ((1, 2, w // 2, w - a, w - a + 1, w) if not th else range(1, w + 1)):
                if 1 <= b <= w:
                    ms = [(f'{t} %s : {a}', 'bits'), (f'{t} %s : {b}', 'bits'), ('s8 %s', 'scalar')]
                    yield struct_item(f'struct/w/{nm(ms)}', ms)
    # alignment attributes on members, on the type and on both; packed types; pack pragma around
    base = [PLAIN[i] for i in (0, 1, 2, 3, 6, 8, 11)]
    for a in AL:
        for m1 in base:
            for m2 in base:
                for pos in (0, 1):
                    for pack in (None, 1, 2, 4):
                        ms = [m1, m2]
                        ms[pos] = (a + ' ' + ms[pos][0], ms[pos][1])
                        if a in ('_Alignas(8)', '_Alignas(double)') and 'SX' in ms[pos][0]:
                            continue
                        yield struct_item(f'struct/{pack}/{nm(ms)}', ms, pack=pack)
                        if a.startswith('__declspec') and pos == 0:
                            yield struct_item(f'struct/{a}/{pack}/{nm([m1, m2])}', [m1, m2], pack=pack, attr=a)
                            yield struct_item(f'union/{a}/{pack}/{nm([m1, m2])}', [m1, m2], 'union', pack=pack, attr=a)
    # (__declspec(packed) is an extension: as in GCC it also overrides the alignment of over-aligned member types)
    PP = [m for m in PLAIN if m[0][:2] not in ('SX', 'SY')]
    for m1 in PP:
        for m2 in PP:
            yield struct_item(f'struct/packed/{nm([m1, m2])}', [m1, m2], attr='PACKED')
            if th:
                for m3 in PP:
                    yield struct_item(f'struct/packed/{nm([m1, m2, m3])}', [m1, m2, m3], attr='PACKED')
    # anonymous members and inclusion
    inner = ['s8 i%d', 's16 i%d', 's64 i%d', 's8 i%d[3]', 's32 i%d : 3']
    for k1 in ('struct', 'union'):
        for k2 in ('struct', 'union'):
            for p in (None, 1, 2):
                for a in inner:
                    for b in inner:
                        for c in (0, 1, 2, 3):
                            ms = [('s8 %s', 'scalar'), (f'{k2} {{ {a % 1}; {b % 2}; }}', 'none'), (PLAIN[c])]
                            tail = ''
                            for x, i in ((a, 1), (b, 2)):
                                if ':' in x:
                                    tail += f'Z(&v, sizeof(v)); v.i{i} = -1; O(HB(&v, sizeof(v))); '
                                elif '[' in x:
                                    tail += f'Z(&v, sizeof(v)); v.i{i}[1] = -1; O(HB(&v, sizeof(v))); '
                                else:
                                    tail += f'O((u64)&(({k1} T_@ *)0)->i{i}); '
                            yield struct_item(f'{k1}/{k2}anon/{p}/{a}{b}/{c}', ms, k1, pack=p, tail=tail)
    for a in inner:
        for b in inner:
            for o in inner[:3]:
                # three levels
                ms = [('s8 %s', 'scalar'), (f'union {{ {o % 0}; struct {{ {a % 1}; union {{ {b % 2}; s16 i3; }}; }}; }}', 'none'), ('s8 %s', 'scalar')]
                yield struct_item(f'struct/deep/{o}{a}{b}', ms, tail='O((u64)&((struct T_@ *)0)->i3); O((u64)&((struct T_@ *)0)->i0); ')
    # flexible arrays, nested named aggregates
    for t in ('s8', 's16', 's32', 's64', 'SA', 'SX', 'double'):
        for m in PLAIN:
            for p in (None, 1, 2, 4):
                ms = [m, (f'{t} fl[]', 'none')]
                yield struct_item(f'struct/flex/{p}/{t}/{nm([m])}', ms, pack=p, tail='O((u64)&((struct T_@ *)0)->fl); O((u64)&((struct T_@ *)0)->fl[2]); ')
    # declarators
    for i, (d, x) in enumerate([('s32 (*%s)(s8, s16)', ''), ('s8 *%s[3]', ''), ('s8 (*%s)[3]', ''), ('s16 (*%s[2])[3]', ''), ('SA %s[2][3][4]', ''), ('s32 (*(*%s)(void))[3]', ''), ('s8 (*(*%s[2])(s32))[5]', ''), ('s64 *(**%s)[7]', ''),
                                ('const volatile s16 %s', ''), ('s8 volatile *const *%s', ''), ('unsigned %s', ''), ('long long int unsigned %s', ''), ('short signed int %s', ''), ('__int64 %s', ''), ('unsigned __int8 %s', ''), ('long double %s', ''), ('int long %s', ''),
                                ('char %s', ''), ('s8 %s[sizeof(s64)]', ''), ('s8 %s[E1 + 2]', ''), ('s16 %s[3 * 4 - 5]', ''), ('s8 %s[sizeof(SA[3])]', ''), ("s8 %s['a']", ''), ('s8 %s[-1 > 0u]', ''), ('s8 %s[(u8)257 + 1]', '')]):
        for m in (0, 2):
            yield struct_item(f'decl/{i}/{m}', [PLAIN[m], (d, 'agg')])
    # sizeof forms
    for i, e in enumerate(['sizeof(s8)', 'sizeof(s32[3])', 'sizeof(SA *)', 'sizeof(SA[2][5])', 'sizeof(s32 (*)[9])', 'sizeof(s32 (*[4])(void))', 'sizeof "abc"', 'sizeof("abc" "de")', "sizeof 'a'", 'sizeof(1 ? (s8)1 : (s8)2)', 'sizeof(1.0f)',
                           'sizeof(1.0f + 1)', 'sizeof(1ll + 1)', 'sizeof(L"ab")', 'sizeof(struct { s8 a; s32 b; })', 'sizeof(enum { QA_@ })', 'sizeof(union { s8 a[5]; s16 b; })', 'sizeof((s8)1 + (s8)2)', 'sizeof(!1ll)', 'sizeof(-(s16)1)', 'sizeof(~(u64)1)', 'sizeof(SX)', 'sizeof(((SD *)0)->d)',
                           'sizeof(*(SD *)0)', 'sizeof((SB){0})', 'sizeof((s16[]){1, 2, 3})', 'sizeof(void *)', '_Alignof(SX)', '_Alignof(s64[3])', '_Alignof(SB)', '_Alignof(SA *)', 'sizeof(E0)', 'sizeof(EN)', 'sizeof(_Bool)', 'sizeof(1 == 2.0)', 'sizeof((s8)1 << 1ll)', 'sizeof((void *)0 == 0)',
                           'sizeof(1, (s8)1)', 'sizeof(__func__) > 2']):
        yield (f'sizeof/{i}', f'static u64 z_@ = {e};' if 'func' not in e else 'static u64 z_@ = 1;', f's8 a[{e}]; O({e}); O(z_@); O(sizeof(a));' if 'QA' not in e else 'O(z_@);', 3)


def body(c):
    its = uniq([t for t in items(c.thorough)])
    c.cov['types'] = len(its)
    Diff(c, batch=70, head=HEAD + PRE, hlc_pre=HLC_PRE, ref_pre=REF_PRE).run(its)
    for k in (5, len(its) // 2, len(its) - 60):
        c.sample({'key': its[k].key, 'decl': its[k].decl})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every member sequence of the stated families; observed sizeof, _Alignof, member offsets and sizes, the nesting in another struct, array stride, and the bytes changed by storing all-ones into every member; compared with clang-18 for x86_64-pc-windows-msvc. Non-trivial: some observation non-zero.'
    c.assumptions += ['clang-18 implements the Microsoft record layout']


if __name__ == '__main__':
    main('C05', 'exploration', body)
