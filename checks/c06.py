from common import *
import itertools

PRE = '''
static u64 HB(void *p, u64 n){ u8 *b = p; u64 h = 1469598103934665603ull; for(u64 i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
typedef void *vp;
static void F(void *p, u64 n, u64 s){ u8 *b = p; for(u64 i = 0; i < n; i++) b[i] = (u8)(s * 37 + i * 11 + (i >> 8) + 129); }
'''
# element type alphabet: (type, is integer)
TY = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'float', 'double', 'void *', '_Bool']
SG = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 33, 64, 65]
BT = [('s8', 8), ('u8', 8), ('s16', 16), ('u16', 16), ('s32', 32), ('u32', 32), ('s64', 64), ('u64', 64)]


def bitfields(th):
    for t, w in BT:
        for off in range(0, w):
            for width in range(1, w - off + 1):
                if w == 64 and not th and not (off in (0, 1, 7, 8, 31, 32, 33, 63) or width in (1, 31, 32, 33) or off + width == 64 or off % 16 == width % 8):
                    continue
                if w == 32 and not th and (off * 7 + width) % 3 and not (off in (0, 1, 31) or width in (1, 8, 16, 31, 32) or off + width == 32):
                    continue
                d = f'struct B_@ {{ u8 pre; ' + (f'{t} a : {off}; ' if off else '') + f'{t} m : {width}; ' + (f'{t} c : {w - off - width}; ' if w - off - width else '') + f'u8 post; }};'
                vals = f'static s64 v_@[] = {{0, -1, 1, 0x5a5a5a5a5a5a5a5all, {1 << (width - 1)}ull, {(1 << (width - 1)) - 1}ull}};'
                b = '''u64 h = 0; for(s32 k = 0; k < 6; k++) for(s32 s = 0; s < 3; s++){ s64 v = v_@[k]; struct B_@ x; struct B_@ *p = &x;
                F(&x, sizeof(x), s * 50); x.m = v; h = h * 31 + HB(&x, sizeof(x)); h = h * 31 + (u64)x.m + (u64)(x.m + 1 > 0) + (u64)-x.m + (u64)(x.m - 1ll);
                F(&x, sizeof(x), s * 50); h = h * 31 + (u64)(s64)(p->m = v); h = h * 31 + HB(&x, sizeof(x));
                F(&x, sizeof(x), s * 50); h = h * 31 + (u64)x.m; x.m += v; h = h * 31 + HB(&x, sizeof(x)); x.m ^= 3; h = h * 31 + HB(&x, sizeof(x)); p->m <<= 1; h = h * 31 + HB(&x, sizeof(x)); x.m -= 5; x.m |= v; x.m &= ~v; p->m *= 3; h = h * 31 + HB(&x, sizeof(x));
                F(&x, sizeof(x), s * 50); h = h * 31 + (u64)x.m++; h = h * 31 + HB(&x, sizeof(x)); h = h * 31 + (u64)--p->m; h = h * 31 + HB(&x, sizeof(x)); h = h * 31 + (u64)x.m--; h = h * 31 + (u64)++x.m; h = h * 31 + HB(&x, sizeof(x)); }
                O(h);'''
                yield (f'bits/{t}/{off}/{width}', d + vals, b)
    # forms of the object holding the bit-field
    for (t, w), (off, width) in itertools.product(BT, [(0, 1), (3, 5), (1, 7), (5, 11), (9, 20), (31, 33)]):
        if off + width > (1 if t == '_Bool' else w):
            continue
        d = f'struct B_@ {{ u8 pre; ' + (f'{t} a : {off}; ' if off else '') + f'{t} m : {width}; {t} n : {min(width, max(1, w - off - width))}; u8 post; }}; static struct B_@ g_@; static struct B_@ ga_@[3]; static struct B_@ *id_@(struct B_@ *p){{ return p; }} static struct B_@ by_@(s32 v){{ struct B_@ x; F(&x, sizeof(x), v); x.m = v; return x; }} static u64 arg_@(struct B_@ x, s32 v){{ x.n = v; return HB(&x, sizeof(x)); }}'
        for nmf, setup, lv in [('glob', '', 'g_@'), ('garr', 's32 i = 2;', 'ga_@[i]'), ('larr', 'struct B_@ l[4]; s64 i = 1; F(l, sizeof(l), 4);', 'l[i]'), ('ptr', 'struct B_@ *p = ga_@ + 1;', '(*p)'), ('call', '', 'id_@(&g_@)[0]'), ('arrow', 'struct B_@ **p; struct B_@ *q = &g_@; p = &q;', '(*p)[0]'), ('neg', 'struct B_@ *p = ga_@ + 2; s32 i = -1;', 'p[i]')]:
            whole = 'l' if nmf == 'larr' else 'g_@'
            b = f'{setup} F(&g_@, sizeof(g_@), 3); F(ga_@, sizeof(ga_@), 9); {lv}.m = -1; O(HB(&{whole}, sizeof({whole}))); O(HB(ga_@, sizeof(ga_@))); {lv}.n = {lv}.m; O(HB(&{whole}, sizeof({whole}))); O({lv}.n); {lv}.m = {lv}.n = 5; O(HB(&{whole}, sizeof({whole}))); {lv}.m++; {lv}.n -= 3; O(HB(&{whole}, sizeof({whole}))); O(HB(ga_@, sizeof(ga_@))); O({lv}.m ? 1 : 2); O(!{lv}.n); O({lv}.m && {lv}.n); if({lv}.m) O(7); O(by_@(9).m); {{ struct B_@ z; z = by_@(2); u64 zz = arg_@(z, 3); O(zz); O(HB(&z, sizeof(z))); }} float f = {lv}.m; O((s64)f); double e = {lv}.n; O((s64)e); {lv}.m = 2.75; O(HB(&{whole}, sizeof({whole})));'
            yield (f'bitform/{t}/{off}/{width}/{nmf}', d, b, 18)


RHS = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'float', 'double', '_Bool']


def bitops(th):
    # compound assignments: the operation happens in the common type of the promoted bit-field and the right side
    for (t, w), width in itertools.product(BT + [('_Bool', 8)], [1, 4, 7, 8, 13, 16, 17, 30, 31, 32, 33, 40, 63, 64]):
        if width > w or t == '_Bool' and width > 1:
            continue
        sg = t[0] == 's'
        off = {1: 3, 7: 1, 13: 2, 17: 9, 31: 1, 33: 20, 40: 24, 63: 1}.get(width, 0)
        if off + width > (1 if t == '_Bool' else w):
            off = 0
        top = width - 1 if sg else width
        vals = sorted({v for v in [-1 if sg else (1 << top) - 1, -2, -(1 << (top - 1 if top else 0)), 1, 2, 5, (1 << top) - 1 if top else 0, (1 << top) - 2 if top else 0, 0] if (sg or v >= 0)})
        vt = 's64' if sg else 'u64'
        for op, rt in itertools.product(['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='], RHS):
            if rt in ('float', 'double') and op not in ('+=', '-=', '*=', '/='):
                continue
            if rt == '_Bool':
                rv = [1]
            elif op in ('<<=', '>>='):
                m = 64 if width > 32 else 32
                rv = [x for x in [0, 1, 3, 7, width - 1, m - 1] if x < m]
            elif rt in ('float', 'double'):
                if width < 8:
                    rv = [1]
                else:
                    rv = [1, 2, 3]
            else:
                rv = [1, 2, 3, 100]
                if rt[0] == 's' and op not in ('*=',):
                    rv += [-1, -3] if op not in ('/=', '%=') or not sg or width < 32 else [-3]
                if rt[0] == 'u' and op != '*=':
                    rv += [(1 << int(rt[1:])) - 1, (1 << (int(rt[1:]) - 1)) + 5]
            fl = rt in ('float', 'double')
            lv = [v for v in vals if not fl or (abs(v) < 2**width // 4 or width < 3) and abs(v) < 2**22] or [0]
            if fl and op == '*=':
                lv = [v for v in lv if abs(v) * 3 < 2 ** max(top, 1)] or [0]
            if fl and not sg:
                lv = [v for v in lv if v >= 3] or ([5] if width >= 4 else [1])
            if fl:
                lv = [v for v in lv if abs(v) + 3 < 2 ** top] or [0]
                if lv == [0] and (op == '-=' or op == '+='):
                    continue
            lvs = ', '.join(f'{v}{"ll" if v < 0 else "ull"}' for v in lv)
            rvs = ', '.join(f'{v}' + ('' if fl or v < 0 else 'ull') for v in rv)
            d = f'struct B_@ {{ {t} p : {off}; {t} m : {width}; u8 post; }}; static {vt} v_@[] = {{{lvs}}}; static {rt} r_@[] = {{{rvs}}}; static struct B_@ g_@;' if off else f'struct B_@ {{ {t} m : {width}; u8 post; }}; static {vt} v_@[] = {{{lvs}}}; static {rt} r_@[] = {{{rvs}}}; static struct B_@ g_@;'
            b = f'''u64 h = 0; for(s32 i = 0; i < {len(lv)}; i++) for(s32 j = 0; j < {len(rv)}; j++){{ struct B_@ x, *p = &x; F(&x, sizeof(x), 3); F(&g_@, sizeof(x), 7); {rt} r = r_@[j];
            x.m = v_@[i]; g_@.m = v_@[i]; h = h * 31 + (u64)(s64)(x.m {op} r); h = h * 31 + HB(&x, sizeof(x)); g_@.m {op} r_@[j]; h = h * 31 + HB(&g_@, sizeof(x)); p->m = v_@[i]; p->m {op} r; h = h * 31 + HB(&x, sizeof(x)); }} O(h);'''
            yield (f'bitop/{t}/{width}/{op}/{rt}', d, b, 18)


def scalars(th):
    offs = [0, 1, 2, 7, 8, 15, 16, 100, 119, 120, 121, 126, 127, 128, 129, 135, 136, 137, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536] + ([1000000, 5000000] if th else [])
    for t in TY:
        for o in offs:
            d = f'''#pragma pack(push, 1)
struct P_@ {{ u8 pre[{o}]; {t} m; u8 post[9]; }};
#pragma pack(pop)
static struct P_@ g_@; static u64 sum_@(struct P_@ *p){{ return HB((u8 *)p + {max(0, o - 8)}, sizeof(*p) - {max(0, o - 8)}); }}'''.replace(f'u8 pre[{o}]; ' if o == 0 else '\0', '')
            v = '(void *)0x123456789abcdef0ull' if '*' in t else '-3.5f' if t in ('float', 'double') else '(s64)0x8899aabbccddeef1ull'
            b = f'struct P_@ *p = &g_@; F(p, sizeof(*p), 1); p->m = ({t}){v}; O(sum_@(p)); F(p, sizeof(*p), 2); g_@.m = ({t}){v}; O(sum_@(p)); {t} r = p->m; O(HB(&r, sizeof(r))); r = g_@.m; O(HB(&r, sizeof(r))); u8 *q = (u8 *)p; s64 k = {o}; r = *({t} *)(q + k); O(HB(&r, sizeof(r))); *({t} *)(q + {o}) = ({t})0; O(sum_@(p)); F(p, sizeof(*p), 3); *({t} *)&q[k] = ({t}){v}; O(sum_@(p)); '
            if o <= 70000:
                b += f'struct P_@ l; F(&l, sizeof(l), 4); l.m = ({t}){v}; O(sum_@(&l)); r = l.m; O(HB(&r, sizeof(r))); '
            if t not in ('void *',):
                op = '+= 1' if t != '_Bool' else '= 1'
                b += f'F(p, sizeof(*p), 5); p->m = ({t})1; p->m {op}; g_@.m {op}; O(sum_@(p)); '
            yield (f'scalar/{t}/{o}', d, b, 12)


def copies(th):
    sizes = list(range(0, 66)) + [71, 72, 73, 95, 96, 97, 100, 119, 120, 127, 128, 129, 135, 136, 137, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8193]
    if th:
        sizes = list(range(0, 600)) + sizes[66:] + [20000, 65535, 65537, 100000]
    for n in sizes:
        for al in (1, 2, 4, 8, 16):
            if n % al or (n == 0) != (al == 0 or n == 0):
                continue
            if al > 1 and not th and n > 130 and n not in (256, 512, 4096):
                continue
            et = {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64', 16: 'u64'}[al]
            att = '__declspec(align(16))' if al == 16 else ''
            mem = f'{et} b[{n // min(al, 8)}];' if n else ''
            if n == 0:
                continue
            d = f'struct {att} S_@ {{ {mem} }}; struct G_@ {{ u8 pre[16]; struct S_@ s; u8 post[16]; }}; static struct G_@ ga_@, gb_@; static struct S_@ ret_@(s32 k){{ struct S_@ x; F(&x, sizeof(x), k); return x; }} static struct S_@ retp_@(struct S_@ *p){{ return *p; }} static struct S_@ retg_@(void){{ return gb_@.s; }} static u64 arg_@(s32 a, struct S_@ x, struct S_@ y){{ u64 h = HB(&x, sizeof(x)) + a; F(&x, sizeof(x), 99); return h * 3 + HB(&y, sizeof(y)); }}'
            rs = 'F(&ga_@, sizeof(ga_@), 1); F(&gb_@, sizeof(gb_@), 2); F(&la, sizeof(la), 3); F(&lb, sizeof(lb), 4); '
            al = 'h = h * 31 + HB(&ga_@, sizeof(ga_@)); h = h * 31 + HB(&gb_@, sizeof(gb_@)); h = h * 31 + HB(&la, sizeof(la)); h = h * 31 + HB(&lb, sizeof(lb)); '
            acts = ['ga_@.s = gb_@.s;', 'la.s = lb.s;', 'la.s = gb_@.s;', 'ga_@.s = lb.s;', '*p = *q;', 'p[0] = la.s; q[0] = *p;', 'la = lb;', 'ga_@ = *gq;', 'la.s = lb.s = gb_@.s;', 'la.s = la.s;', 'la.s = ret_@(7);', 'ga_@.s = ret_@(8);', '*p = retp_@(q);',
                    'lb.s = retg_@();', 'la.s = k ? lb.s : gb_@.s;', '*p = k - 1 ? *q : ret_@(5);', 'la.s = (k, lb.s);', 'struct S_@ z = lb.s; ga_@.s = z;', 'struct S_@ z = ret_@(4); ga_@.s = z;', 'struct S_@ z = {0}; la.s = z;',
                    'u64 r = arg_@(1, la.s, *q); h += r;', 'u64 r = arg_@(2, ret_@(1), ret_@(2)); h += r;', 'u64 r = HB(ret_@(3).b, sizeof(struct S_@)); h += r;', 'struct G_@ arr[3]; F(arr, sizeof(arr), 1); arr[k].s = arr[k + 1].s; h += HB(arr, sizeof(arr)); arr[k - 1] = arr[k]; h += HB(arr, sizeof(arr));', 'la.s = retp_@(&la.s);',
                    'h += (la.s = *q).b[0];', 'h += (*p = lb.s).b[k - 1] + (la.s = *p).b[sizeof(struct S_@) / sizeof(la.s.b[0]) - 1];', 'h += (k ? la.s : *q).b[0] + (k - 1 ? *p : lb.s).b[k - 1] * 3;', 'h += (k, *q).b[0] + ret_@(3).b[k - 1] * 5;', 'u64 r = arg_@(1, la.s = *q, *p = lb.s); h += r;',
                    'u64 r = HB((la.s = *q).b, sizeof(struct S_@)); h += r;', 'h += (ga_@ = *gq).s.b[0] + (la = lb).post[3];', 'u64 r = h * 7 + (la.s = ret_@(k + 3)).b[0] * (h + 5); h += r;']
            if n > 2000:
                acts = [a for a in acts if 'arr' not in a]
            b = 'struct G_@ la, lb; struct S_@ *p = &ga_@.s, *q = &gb_@.s; struct G_@ *gq = &gb_@; s32 k = 1; u64 h; '
            for a in acts:
                b += f'h = 1; {rs}{{ {a} }} {al} O(h); '
            yield (f'copy/{n}/{att}{et}', d, b, len(acts))


def pointers(th):
    IDX = ['s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', '_Bool']
    LADDER = [96, 120, 126, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 1000, 32767, 32768, 65536]
    els = TY[:10] + ['vp'] + [f'E{n}' for n in SG + LADDER]
    for e in els:
        E = e + '_@' if e[0] == 'E' else e
        d = (f'typedef struct {{ u8 b[{e[1:]}]; }} {E}; ' if e[0] == 'E' else '') + f'static {E} g_@[40]; '
        LS = 'static ' if e[0] == 'E' and int(e[1:]) in LADDER else ''
        for it in IDX if e[0] != 'E' or int(e[1:]) not in LADDER else ['s8', 'u32', 's64']:
            vals = {'_Bool': '0, 1', 's8': '0, 1, -1, 7, -8, 19, -19'}.get(it) or ('0, 1, 2, 13, 19' if it[0] == 'u' else '0, 1, -1, 13, -19, 19')
            n = vals.count(',') + 1
            b = f'static {it} iv[] = {{{vals}}}; {LS}{E} l[40]; F(g_@, sizeof(g_@), 1); F(l, sizeof(l), 2); u64 h = 0; for(s32 k = 0; k < {n}; k++){{ {it} i = iv[k]; {E} *p = g_@ + 20, *q = l + 20, *r; r = p + i; h = h * 31 + (u64)((u8 *)r - (u8 *)g_@); r = i + p; h = h * 31 + (u64)((u8 *)r - (u8 *)g_@); r = p - i; h = h * 31 + (u64)((u8 *)r - (u8 *)g_@); h = h * 31 + HB(&p[i], sizeof({E})); h = h * 31 + HB(&i[q], sizeof({E})); h = h * 31 + HB(p - i, sizeof({E})); '
            b += f'r = p; r += i; h = h * 31 + (u64)(r - g_@); r -= i; h = h * 31 + (u64)(r - p) + (r == p); r = p; r++; ++r; r--; h = h * 31 + (u64)(r - p); h = h * 31 + (p + i < p) + (p + i >= p) * 2 + (p + i == p) * 4; l[20 + i] = g_@[20 - i]; h = h * 31 + HB(l, sizeof(l)); *(p + i) = *q; q[i] = *(l + 3); h = h * 31 + HB(g_@, sizeof(g_@)); {E} *w = p; h = h * 31 + HB(w++, sizeof({E})); h = h * 31 + HB(--w, sizeof({E})); h = h * 31 + (u64)(w - l - (p - l)); }} O(h);'
            if it[0] == 'u':
                b = b.replace('(u8 *)r - (u8 *)g_@', '(u8 *)r - (u8 *)g_@')
            yield (f'ptr/{e}/{it}', d, b)
    # constant indices, displacement thresholds
    for e in ['u8', 's16', 's32', 'double', 'E3', 'E24']:
        E = e + '_@' if e[0] == 'E' else e
        d = (f'typedef struct {{ u8 b[{e[1:]}]; }} {E}; ' if e[0] == 'E' else '') + f'static {E} g_@[70000 / sizeof({E}) + 2]; '
        for k in (0, 1, 2, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, 1000, 2047, 2048, 2800):
            b = f'F(g_@, sizeof(g_@), 1); {E} *p = g_@, *q = g_@ + 1, x; {E} l[{k + 2}]; F(l, sizeof(l), 2); O(HB(&g_@[{k}], sizeof({E}))); O(HB(&p[{k}], sizeof({E}))); p += {k}; O(HB(p, sizeof({E}))); O(HB(p - {k}, sizeof({E}))); x = l[{k}]; O(HB(&x, sizeof(x))); l[{k}] = g_@[1]; l[1] = q[-1]; O(HB(l, sizeof(l))); g_@[{k} + 1] = x; O(HB(g_@, sizeof(g_@))); O((u64)(&l[{k}] - l)); O((u64)((u8 *)&g_@[{k}] - (u8 *)g_@)); s32 k = {k}; x = g_@[k]; O(HB(&x, sizeof(x))); l[k] = x; O(HB(l, sizeof(l)));'
            yield (f'ptrc/{e}/{k}', d, b, 11)
    # multi-dimensional arrays and nested designations
    for t in ('s8', 's16', 's32', 's64', 'float'):
        for x, y, z in itertools.product((1, 2, 3), (1, 3, 4), (2, 5)):
            d = f'static {t} g_@[{x}][{y}][{z}]; struct N_@ {{ s8 a; struct {{ {t} m[{y}][{z}]; s8 c; }} n[{x}]; }}; static struct N_@ s_@[2];'
            b = f'u64 h = 0; {t} l[{x}][{y}][{z}]; F(g_@, sizeof(g_@), 1); F(s_@, sizeof(s_@), 1); F(l, sizeof(l), 1); for(s32 i = 0; i < {x}; i++) for(s32 j = 0; j < {y}; j++) for(s32 k = 0; k < {z}; k++){{ g_@[i][j][k] = ({t})(i * 100 + j * 10 + k); l[i][j][k] = g_@[i][j][k]; (*(*(l + i) + j))[k] += ({t})1; s_@[1].n[i].m[j][k] = l[i][j][k]; struct N_@ *p = s_@; (p + 1)->n[i].c = (s8)k; {t} (*q)[{z}] = g_@[i]; h = h * 31 + (u64)(s64)q[j][k] + (u64)((s8 *)&p[1].n[i].m[j][k] - (s8 *)p); {t} (*w)[{y}][{z}] = &g_@[i]; h = h * 31 + (u64)(s64)(*w)[j][k] + sizeof(*w) + sizeof(g_@[i][j]) + (u64)((s8 *)(w + 1) - (s8 *)g_@); }} O(h); O(HB(g_@, sizeof(g_@))); O(HB(l, sizeof(l))); O(HB(s_@, sizeof(s_@)));'.replace('(*(*(l + i) + j))[k]', '*(*(*(l + i) + j) + k)')
            yield (f'multi/{t}/{x}{y}{z}', d, b, 4)
    # union punning
    for a, b_ in itertools.product(TY[:10], TY[:10]):
        if b_ in ('float', 'double'):
            continue
        v = '-2.75' if a in ('float', 'double') else '0x8182838485868788ull'
        yield (f'pun/{a}/{b_}', f'union U_@ {{ {a} x; {b_} y; u8 b[9]; }}; static union U_@ g_@;', f'union U_@ u; union U_@ *p = &g_@; F(&u, sizeof(u), 1); F(p, sizeof(u), 1); u.x = ({a}){v}; O(u.y); O(HB(&u, sizeof(u))); p->x = ({a}){v}; O(p->y); O(HB(p, sizeof(u))); u.y = ({b_})1; O(HB(&u, sizeof(u))); union U_@ w = u; O(HB(&w, sizeof(w)));', 6)


def strings(th):
    # elements of string literals, as static objects
    for pre, ct in [('', 's8'), ('u8', 's8'), ('u', 'u16'), ('U', 'u32'), ('L', 'u16')]:
        for n in [0, 1, 2, 3, 7, 8, 30, 127, 128, 129, 255, 256, 257, 300, 1000]:
            for pos in sorted({0, 1, n // 2, max(0, n - 1), n, 126, 127, 128, 129, 255, 256, 257}):
                if pos > n:
                    continue
                txt = pre + '"' + ''.join(chr(48 + (i * 7 + i // 48) % 44).replace('\\', '!').replace('?', '!') for i in range(n)) + '"'
                b = f's64 k = {pos}; u8 kb = {pos} & 255; s32 m = {-pos}; O((u64)({txt})[{pos}]); O((u64){pos}[{txt}]); O((u64)*({txt} + {pos})); O((u64)({txt})[k] + (u64)({txt})[kb] * 3); O((u64)*(k + {txt})); O((u64)({txt} + {pos})[0] + (u64)({txt} + {pos})[m] * 5); O((u64)*&({txt})[{pos}]); O((u64)({txt} + {pos} - {pos // 2})[0]); O(sizeof({txt})); const {ct} *p = &({txt})[{pos}]; O(HB((void *)p, sizeof({txt}) - {pos} * sizeof({ct}))); p = {txt} + {pos}; O((u64)p[0] + (u64)p[m]); O((u64)(*(k ? {txt} + k : {txt}))); O((u64)({ct})(({txt})[{pos}] + 1 - ({txt})[0]));'
                yield (f'str/{pre}/{n}/{pos}', '', b, 13)


def allocas(th):
    # memory of _alloca: 16-byte aligned, disjoint from everything, untouched by calls with any number of arguments
    for na in range(0, 13):
        d = f'static u64 f_@(u64 z{"".join(f", u64 p{i}" for i in range(na))}){{ u8 pad[64]; F(pad, 64, z); return HB(pad, 64) + z{"".join(f" + p{i} * {i + 3}" for i in range(na))}; }}' + f'static u64 fs_@(u64 n, s32 k){{ u64 h = n; u8 loc[24]; F(loc, 24, 5); u8 *a = (u8 *)_alloca(n); F(a, n, 1); h = h * 31 + ((u64)a & 15) + f_@(h{"".join(f", h + {i}" for i in range(na))}); u8 *b = (u8 *)_alloca(n + 3); F(b, n + 3, 2); h = h * 31 + ((u64)b & 15) + (b + n + 3 <= a) + f_@(n{"".join(f", {i}ull" for i in range(na))}); u8 *c[4]; for(s32 i = 0; i < k; i++){{ c[i] = (u8 *)_alloca(n + i); F(c[i], n + i, 10 + i); h = h * 31 + ((u64)c[i] & 15) + f_@(h{"".join(f", h - {i}" for i in range(na))}); }} for(s32 i = 0; i < k; i++) h = h * 31 + HB(c[i], n + i); h = h * 31 + HB(a, n); h = h * 31 + HB(b, n + 3); return h * 31 + HB(loc, 24); }}'
        b = ' '.join(f'O(fs_@({n}, {k}));' for n in (0, 1, 7, 8, 15, 16, 17, 24, 100, 1000, 3000) for k in (0, 3))
        yield (f'alloca/{na}', d, b, 22)


def frames(th):
    for n in [1, 7, 8, 40, 100, 110, 118, 119, 120, 121, 126, 127, 128, 129, 136, 200, 255, 256, 1000, 4000, 4064, 4079, 4080, 4088, 4096, 4097, 4104, 5000, 8192, 12000, 65536, 100000] + ([300000, 700000] if th else []):
        for na in (0, 1, 5, 9):
            args = ''.join(f', s64 p{i}' for i in range(na))
            d = f'static u64 f_@(u64 x{args}){{ u8 a[{n}]; u64 b = x; u16 c = (u16)(x * 3); double e = (double)x; u8 z[{n}]; F(a, sizeof(a), 1); F(z, sizeof(z), 2); s64 k = {n} - 1; a[0] = (u8)x; a[k] ^= 0x55; z[0] ^= a[k]; z[{n} - 1] += 1; b += c; e += 0.5; u64 h = HB(a, sizeof(a)) * 31 + HB(z, sizeof(z)) * 7 + b * 5 + c * 3 + (u64)(e * 4);' + ''.join(f' h = h * 31 + (u64)p{i}; p{i} = 0;' for i in range(na)) + ' return h; }'
            yield (f'frame/{n}/{na}', d, f'u64 k1 = 5; O(f_@(3{"".join(f", {i * 7 - 3}" for i in range(na))})); O(k1);', 2)
    for n in range(1, 60 if not th else 150):
        decls = ''.join(f'{("s8", "s64", "s16", "float", "s32", "u8")[i % 6]} v{i} = ({("s8", "s64", "s16", "float", "s32", "u8")[i % 6]})(x + {i}); ' for i in range(n))
        yield (f'locals/{n}', '', f's32 x = 40; {decls} O({" + ".join(f"(s64)v{i} * {i + 1}" for i in range(n))}); ' + ''.join(f'v{i} += ({("s8", "s64", "s16", "float", "s32", "u8")[i % 6]})1; ' for i in range(0, n, 2)) + f'O({" + ".join(f"(s64)v{i} * {i + 1}" for i in range(n))});', 2)
    # disjoint lifetimes, block scopes, addresses of locals that stay distinct
    for n in range(1, 12):
        yield (f'blocks/{n}', '', 'u64 h = 0; u8 *q[20]; s32 c = 0; ' + ''.join(f'{{ u8 a{i}[{i * 3 + 1}]; F(a{i}, sizeof(a{i}), {i}); q[c++] = a{i}; ' for i in range(n)) + 'for(s32 i = 0; i < c; i++) for(s32 j = 0; j < i * 3 + 1; j++) h = h * 31 + q[i][j]; ' + ''.join(f' h = h * 31 + HB(a{i}, sizeof(a{i})); }}' for i in reversed(range(n))) + 'O(h);')


def items(th):
    yield from bitfields(th)
    yield from bitops(th)
    yield from scalars(th)
    yield from copies(th)
    yield from pointers(th)
    yield from frames(th)
    yield from allocas(th)
    yield from strings(th)


def body(c):
    its = uniq([t for t in items(c.thorough)])
    c.cov['programs'] = len(its)
    Diff(c, batch=24, head=HEAD + PRE, ref_opt='-O1').run(its)
    for k in (5, len(its) // 2, len(its) - 60):
        c.sample({'key': its[k].key, 'decl': its[k].decl[:600], 'body': its[k].body[:600]})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every bit-field position and width of every type (64-bit and 32-bit positions thinned in the quick tier), every scalar type at every offset of the ladder, every copied size x alignment x form, every element size x index type x index, frame-size ladder; observed: hash of the object and of guard bytes around it after each access. Reference: the same program compiled by clang-18.'
    c.assumptions += ['clang-18 (-O1) is the oracle']


if __name__ == '__main__':
    main('C06', 'exploration', body)
