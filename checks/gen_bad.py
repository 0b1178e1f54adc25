"""Seed programs for C16 (each covers some productions of the grammar the compiler implements), their tokens, and mutations of these."""
import re

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|[A-Za-z_]\w*|(?:u8|[uUL])?"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|\.?\d(?:[eEpP][+-]|[\w.])*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|\\\n|.''', re.S)


def split(s):
    """tokens with the white space in front of them"""
    out = []
    ws = ''
    for m in TOK.finditer(s):
        t = m.group()
        if t.isspace() or t[:2] in ('//', '/*'):
            ws += t
        else:
            out.append((ws, t))
            ws = ''
    return out, ws


def join(toks, tail=''):
    return ''.join(w + t for w, t in toks) + tail


SEEDS = {
 'decl': 'int a, *b = &a, c[3] = { 1, [2] = 3 }, (*d)(int, char *), f(int x, ...);\nextern long long e; static unsigned short g = 7;\ntypedef int t, *pt; t h; const volatile pt i;',
 'struct': 'struct s { int a; char b : 3, : 0; struct { float c; union { int d; double e; }; } f[2]; struct s *next; } x = { 1, .f = { [1] = { 2.0f, { 3 } } }, 0 };\nunion u { int a; struct s b; } y = { .b = { 1 } };\nenum e { A, B = 5, C = A + B } z = C;',
 'func': 'int f(int a, int b){ return a + b; }\nstatic void g(void){ f(1, 2); }\nint h(int (*p)(int, int), int *q){ g(); return p(q[0], *q) ? f(1, 2) : 0; }',
 'stmt': 'int f(int a){ int i; for(i = 0; i < 10; i++){ if(a) continue; else break; } while(a) a--; do { a++; } while(a < 3);\n switch(a){ case 1: case 2: return 3; default: break; } goto l; l: ; { int j = a; a = j; } return a; }',
 'expr': 'int f(int a, int *p){ unsigned u = 3u; a = -a + ~a * !a / 2 % 3; a += p[1] << 2 >> 1; a = a < 3 && a > 2 || a <= 1 == a >= 4 != 0; a = a & 1 | 2 ^ 3; p++; --p; a = *p, a++; a = (int)(char)a; return sizeof(int) + sizeof a + (a ? u : 3); }',
 'float': 'double d = 1.5, e = 2e3f; float f(float a, double b, int c){ a = b; b = c; c = a; a += 1; return a < b ? a * b : -a / c; }',
 'string': 'char s[] = "abc" "def", t[4] = "xyz"; const char *p = "a\\n\\x41\\0"; int c = \'a\'; unsigned short w[] = L"wide"; int f(void){ return s[0] + p[1] + sizeof("abc") + "x"[0]; }',
 'init': 'struct p { int x, y; }; struct p a[] = { { 1, 2 }, { .y = 3 }, [4].x = 5 }; int f(void){ struct p b = { 1 }, c = b; struct p *q = &(struct p){ 1, 2 }; int d[] = { 1, 2, 3 }; return b.x + q->y + d[1] + (int[]){ 4 }[0]; }',
 'pp': '#define A 1\n#define B(x, y) x + y - A\n#define S(x) #x\n#define C(a, b) a ## b\n#define V(...) f(__VA_ARGS__)\nint f(int);\n#if defined(A) && A + 1 == 2 || !B(1, 2)\nint C(va, r) = B(1, 2)\n;\n#elif 0\n#else\n#endif\n#ifdef X\n#endif\n#ifndef A\n#error no\n#endif\nconst char *s = S(a "b" c);\n#undef A\nint g(void){ return V(1); }\n#pragma once\n#pragma once\n',
 'ppinc': '#include "h.h"\n#include <stddef.h>\n#define H "h.h"\n#include H\nint a = HH;\n#if __has_include("h.h")\nint b;\n#endif\n',
 'attr': '__declspec(dllexport) int f(void){ return 1; }\n__declspec(noreturn) void g(void);\n__declspec(align(16)) int a; _Alignas(8) char b; _Static_assert(sizeof(int) == 4, "x");\nstatic inline int __cdecl h(int a){ return _Alignof(int) + a; }\n__declspec(thread) int t; __declspec(selectany) int sel = 1; _Noreturn void k(void);',
 'generic': 'int f(int a, double b){ return _Generic(a, int: 1, float: 2, default: 3) + _Generic(b, double: 1, char *: 2); }\n_Bool q = 1; int g(_Bool b){ return b ? q : !b; }',
 'asm': 'int f(int a){ __asm__ { mov eax, a\n add eax, 4\n lea rcx, [rax + rcx * 4 + 8]\n mov a, ecx\n } return a; }\n__declspec(inline_asm) int g(int a){ mov eax, a\n return eax }\nint h(void){ return g(3); }',
 'seh': 'int f(int a){ __try { a = 1 / a; } __except(a == 0) { a = 2; } return a; }',
 'seh2': 'int f(int a){ __try { a++; __try { a /= a; } __except(1) { a = 2; } } __except(a) { a = 5; } return a; }',
 'atomic': '_Atomic int a; int f(long *p){ a += 1; a = 3; return _InterlockedExchangeAdd(p, 2) + a; }\nlong _InterlockedExchangeAdd(long volatile *, long);',
 'va': '#include <stdarg.h>\nint f(int n, ...){ va_list ap; va_start(ap, n); int r = va_arg(ap, int); va_end(ap); return r; }\nint g(void){ return f(1, 2.5, "x", 3ll); }',
 'order': 'int f(void){ return g(s.a) + C; }\nint g(int a){ return a; }\nstruct later s; struct later { int a; struct other *o; }; enum { C = 4 }; struct other { T q; }; typedef int T;',
 'pack': '#pragma pack(push, 1)\nstruct a { char c; int d; };\n#pragma pack(pop)\n#pragma pack(2)\nstruct b { char c; long long d; };\n#pragma pack()\n#pragma warning(disable : 4)\n#pragma comment(lib, "x.lib")\nint c = sizeof(struct a);',
 'ptr': 'int a[2][3]; int (*p)[3] = a; int *q[2] = { a[0], a[1] + 1 }; int f(void){ long long d = q[1] - q[0]; void *v = p; p = v; return p[1][2] + **p + (q == 0) + (int)d + *(a[1] + 2); }\nint (*g(int a))(int); int (*(*h)[2])(void);',
 'label': 'int f(int a){ a: switch(a){ case 3: goto a; { default: ; case 4: a++; } } if(a) goto end; for(;;){ break; } end: return a; }\nvoid g(void){ for(int i = 0, j = 1; i < j; ) i++; for(;;) return; }',
 'builtin': '#include <stddef.h>\ntypedef unsigned long long u64; int f(u64 a, int b){ int r = (int)offsetof(struct s, b[1]); unsigned long i; _BitScanForward(&i, b); return r + (int)i + __popcnt(b) + __FUNCTION__[0] + __LINE__; }\nstruct s { int a, b[2]; }; unsigned __popcnt(unsigned); unsigned char _BitScanForward(unsigned long *, unsigned long);',
}
HEADER = {'h.h': '#define HH 3\nint hh(int);\n'}

# replacements: one token of every kind the grammar distinguishes
ALPHA = ['int', 'x', '1', '1.5', '"s"', "'c'", '(', ')', '{', '}', '[', ']', ';', ',', '*', '&', '=', '+', '.', '->', ':', '?', '...', '#', '##', '\n', '\\', 'struct', 'enum', 'void', 'float', 'static', 'extern',
         'typedef', 'if', 'else', 'case', 'return', 'sizeof', 'goto', 'for', 'switch', '_Alignas', '__declspec', '__asm', '_Generic', '++', '<<', '<', '!', '/*', '\0', '@', '_Atomic', '__try', 'a', 'f', 's']
SMALL = ['int', 'x', '1', '"s"', '(', ')', '{', '}', '[', ']', ';', ',', '*', '=', '.', ':', '#', '\n', 'struct', 'void', 'float', 'a', '...']


def mutations(name, alpha):
    toks, tail = split(SEEDS[name])
    n = len(toks)
    for i in range(n):
        w, t = toks[i]
        yield f'{name}/del{i}', join(toks[:i] + toks[i + 1:], tail)
        yield f'{name}/dup{i}', join(toks[:i] + [(w, t), (' ', t)] + toks[i + 1:], tail)
        yield f'{name}/cut{i}', join(toks[:i + 1])
        if i + 1 < n and toks[i + 1][1] != t:
            yield f'{name}/swap{i}', join(toks[:i] + [(w, toks[i + 1][1]), (toks[i + 1][0] or ' ', t)] + toks[i + 2:], tail)
        for k, a in enumerate(alpha):
            if a != t:
                yield f'{name}/rep{i}-{k}', join(toks[:i] + [(w or ' ', a)] + [(w2 or ' ', t2) for w2, t2 in toks[i + 1:i + 2]] + toks[i + 2:], tail)
                yield f'{name}/ins{i}-{k}', join(toks[:i] + [(w or ' ', a), (w or ' ', t)] + toks[i + 1:], tail)
