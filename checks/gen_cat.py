"""Catalogue of constraint violations (for C16): one line each; 'S' inside a function, 'F' at file scope, 'B' in both places.
Near misses (valid lines) are in GOOD: they keep the preamble and the contexts honest."""
PRE = '''struct st { int a; int b; } gs, gs2; union un { int a; float f; } gu; enum en { E0, E1 }; struct bf { int b : 3; } gbf;
struct inc; extern struct inc ginc; int gi, gi2, *gp; void *gv; float gf; double gd; int ga[4]; char gc; unsigned gun; _Bool gb; long long gll; struct st *gsp;
int fn(int a, int b){ return a + b; } void vfn(void){ } int (*gfp)(int, int) = fn; typedef int ty; int vafn(char *f, ...){ return *f; } struct st sfn(void){ return gs; }
#define M2(x, y) x y
#define OBJ 1
'''

EXPR = '''zz = 1|gi = zz|zz()|gs.zz|gsp->zz|gi.a|gp.a|gsp.a|gs->a|gp->a|gi->a|gv->a|*gi|*gs|*gf|**gp|gi[gi]|gs[0]|gf[1]|gi()|gs()|gp()|ga()|fn()|fn(1)|fn(1, 2, 3)|vfn(1)|gfp(1)|gfp(1, 2, 3)|vafn()
fn(gs, 1)|fn(1, gs)|fn(vfn(), 1)|vafn("", vfn())|gi = gs|gs = gi|gs = gu|gp = gs|gf = gs|gi = vfn()|gs = vfn()|1 = gi|gi + 1 = 2|-gi = 1|fn = 0|ga = gp|ga = ga|E0 = 1|fn(1, 2) = 3|gi++ = 1|(gi ? gi : gi2) = 1|(int)gi = 1|&gi = gp
++1|1++|--1|1--|++fn|fn++|++ga|ga--|++gs|gs--|++E0|(gi + 1)++|fn(1, 2)++|&1|&(gi + 1)|&fn(1, 2)|&E0|&gi++|&&gi|&gbf.b|-gp|~gp|+gp|~gf|-gs|+gs|~gs|!gs|-vfn()|!vfn()|-ga|~fn
gs + 1|1 + gs|gs + gs2|gs - 1|1 - gs|gs * 2|2 * gs|gs / 2|gs % 2|gp + gp|gp + gf|gf + gp|gp - gf|gi - gp|gp - gs|gs - gp|gp + gs|gp * 2|2 * gp|gp / 2|gp % 2|gf % 2|2 % gf|gd % gd|gp - gsp
gf << 1|1 << gf|gp << 1|1 << gp|gs << 1|1 >> gs|gf >> 1|gf & 1|1 & gf|gp & 1|1 & gp|gs & 1|gf | gf|gp | 1|gs | gs2|gf ^ 1|gp ^ gp|gs ^ 1|gs == gs2|gs != 1|1 == gs|gs < gs2|gs >= 1|gp == gf|gf != gp|gp < gf|gp == gs
gs && 1|1 && gs|gs || 1|0 || gs|vfn() && 1|1 || vfn()|gs ? 1 : 2|vfn() ? 1 : 2|gi ? gs : 1|gi ? 1 : gs|gi ? gs : gu|gi ? gp : gs|gi ? gf : gp
gi += gs|gi -= gs|gi *= gs|gi /= gs|gi %= gs|gi <<= gs|gi &= gs|gs += 1|gs -= 1|gs *= gs2|gs |= gs2|gp += gp|gp += gf|gp *= 2|gp /= 2|gp %= 2|gp <<= 1|gp &= 1|gf %= 2|gf <<= 1|gf &= 1|gf |= 1|gf ^= 1|gi %= gf|gi <<= gf|gi &= gf|1 += 2|ga += 1|fn += 1|gi + 1 += 2|gi += gp|gi *= gp|gf += gp|gf -= gp
(struct st)gi|(union un)gs|(int)gs|(float)gp|(double)gp|(int *)gf|(int *)gd|(int *)gs|(int[2])gi|(int (void))gi|(int)vfn()|(struct inc)gi|(struct zz)gs
sizeof(struct inc)|sizeof(int[])|sizeof(struct zz)|sizeof(zz)|sizeof zz|sizeof()|sizeof|_Alignof(struct inc)|_Alignof(zz)|_Alignof()|sizeof(int
_Generic(gi, float: 1)|_Generic(gi, zz: 1)|_Generic(gi)|_Generic()|_Generic(gi, int 1)|_Generic(gi, int:)|_Generic(zz, int: 1)
(gi|gi)|gi +|+|gi * / gi|gi gi|gi 1|1 gi|"a" gi|[gi]|gi[|gi[]|gi[1|ga[1, ]|fn(1 2)|fn(1, 2|fn 1, 2)|gs.|gs.1|gsp->|gs..a|gi ? 1|gi ? :|gi ? 1 :|gi : 1|? 1 : 2|(int|(int)|() gi|{ 1 }|gi = { 1 }|, gi|gi,|..|...|->|: gi|#|\\
ginc|ginc.a|*&ginc|ginc = ginc|sizeof ginc|&*gi|gs.a.b|gsp->a->b|sfn().zz|sfn() + 1|sfn()()|gfp.a|gfp->a|gfp + 1|fn.a|fn->a|fn[0]|&gs.zz|(&gs).a|(*gsp)->a|(*gs).a
int|struct|int gi|return|if|while|ty|ty + 1|(ty)|struct st|enum en|void|float + 1|case|default|goto|sizeof int|static|typedef
\'\'|\'abcdefghi\'|0x|08|1abc|0b2|1.5q|1e|0x1.8|1ulll|1lul|"abc|\'a|@|`|1 $ 2|0xg|1..2'''

STMT = '''break;|continue;|case 1: ;|default: ;|switch(gf){ }|switch(gp){ }|switch(gs){ }|switch(vfn()){ }|switch(gi){ case 1: case 1: ; }|switch(gi){ case 1: case 2: case 3: case 2: ; }|switch(gi){ default: default: ; }|switch(gi){ case gi2: ; }|switch(gi){ case 1.5: ; }|switch(gi){ case "a": ; }|switch(gi){ case : ; }|switch(gi){ case 1 ; }|switch(gi){ default ; }|switch gi { }|switch(){ }|switch(gi){ continue; }|switch(gc){ case 1: case 1 + 0: ; }|switch(gll){ case 1ll << 40: case 1ll << 40: ; }
goto nolabel;|goto;|goto 1;|l: l: ;|l1: ; l2: ; l1: ;|goto gi;|l3:;goto l4;|{ m: ; } { m: ; }
if(gs) ;|if(vfn()) ;|if() ;|if gi ;|if(gi ;|if(gi)|if(gi) else ;|else ;|if(gi) ; else ; else ;|while(gs) ;|while() ;|while gi ;|while(gi|for(;gs;) ;|for(;) ;|for() ;|for(;;;) ;|for gi ;|for(;; ;|for(int i = gs;;) ;|for(zz;;) ;|for(;zz;) ;|for(;;zz) ;|do ;|do ; while(gs);|do ; while(gi)|do ; while;|do while(gi); ;|do ; (gi);
return gs;|return;|return vfn();|return|return zz;|return sfn();|return 1|return 1 2;
gi|gi = 1|int x|int x = 1|;)|;]|( ; )|[ ; ]|int x; int x;|int x; float x;|int x, x;|int x; { int y; int y; }|struct t1 { int a; }; struct t1 { int b; };|enum { A }; enum { A };|enum t2 { B, B };|int t3; typedef int t3;|typedef int t4; int t4;|int x; int x(void);|for(int i, i; ; ) ;|typedef int t5; typedef float t5;
int x = gs;|int x = vfn();|struct st x = gi;|struct st x = gu;|int *x = gs;|float x = gs;|int x = zz;|struct st x = zz;|int x = { 1, 2 };|int x = { .a = 1 };|int x = { gs };|static int x = gi;|static int *x = gp;|static int x = fn(1, 2);|static int x = zz;|static int x[2] = { gi };|static struct st x = { gi };|static struct st x = gs;|extern int x = 1;|int x[gi];|int x[fn(1, 2)];|static int x[gi];
__asm__ { foo eax }|__asm__ { mov eax }|__asm__ { mov eax, }|__asm__ { mov eax, xmm0 }|__asm__ { mov eax, bx }|__asm__ { mov [rax], [rcx] }|__asm__ { addps eax, xmm0 }|__asm__ { mov eax, zz }|__asm__ { mov eax, [zz] }|__asm__ { jmp }|__asm__ { jz .nolabel }|__asm__ { shl eax, ebx }|__asm__ { inc 1 }|__asm__ { mov 1, eax }|__asm__ { mov eax, gs }|__asm__ { return eax }
__try { }|__try ;|__except(1) { }|__leave;|__try { } __except { }|__try { } __except() { }|__try { } __except(gs) { }|__finally { }'''

DECL = '''void x;|struct inc x;|struct zz x;|union zz x;|enum zz x;|union st x;|enum st x;|struct un x;|struct en x;|union en x;|enum un x;|zz x;|zz *x;|int x[-1];|int x[gi];|int x[1.5];|int x["a"];|int x[gp];|int x[];|int x[2][];|void x[2];|struct inc x[2];|int x[2](void);|int x(void)[2];|int x(void)(void);|int x(zz);|int x(int zz zz);|int x(int a = 1);|int x(int, void);|int x(struct zz a) { }|int x(int a, int a) { }
float float x;|long float x;|unsigned float x;|signed double x;|short long x;|long long long x;|signed unsigned x;|short double x;|char long x;|char short x;|int float x;|float int x;|unsigned struct st x;|struct st int x;|int ty x;|unsigned void x;|_Bool int x;|unsigned _Bool x;|short short x;|int struct { int a; } x;|short char x;|double double x;|void int x;
static extern int x;|typedef static int x;|extern static int x;|typedef extern int x;|typedef int x = 1;|typedef struct st x = { 1 };
struct { int a; int a; } x;|struct { int a; float a; } x;|struct { int a; struct { int a; }; } x;|union { int a; int a; } x;|struct { void a; } x;|struct { int a(void); } x;|struct { struct inc a; } x;|struct t { struct t a; } x;|struct { int a : 33; } x;|struct { char a : 9; } x;|struct { short a : 17; } x;|struct { long long a : 65; } x;|struct { int a : -1; } x;|struct { int a : 0; } x;|struct { float a : 3; } x;|struct { int *a : 3; } x;|struct { struct st a : 3; } x;|struct { int a : gi; } x;|struct { int a[]; int b; } x;|struct { int a[gi]; } x;|struct { int a = 1; } x;|struct { int a } x;|struct { int; a } x;|struct { int a, } x;|struct { zz a; } x;|struct { 1; } x;|struct { int a; x;|struct { return; } x;|struct 1 x;|struct { int a; } 1;|struct st { int a; } x, 1;
enum { A1 = gi } x;|enum { A2 = 1.5 } x;|enum { A3 = "a" } x;|enum { A4, A4 } x;|enum { } x;|enum { 1 } x;|enum { A5 A6 } x;|enum { A7 = } x;|enum { A8 , , A9 } x;|enum x;|enum { A10 = zz } x;|enum { A11 = 1 x;|enum { A12 = 1ll << 40 } x;
int x[2] = { 1, 2, 3 };|int x[2] = 3;|int x[2] = gp;|int x[2] = ga;|int x[2] = "ab";|char x[2] = "abc";|char x[2] = { "abc" };|char x = "a" "b" 1;|int x[2] = { [2] = 1 };|int x[2] = { [-1] = 1 };|int x[2] = { [gi] = 1 };|int x[2] = { .a = 1 };|int x[2][2] = { { 1, 2, 3 } };|int x[2] = { 1 2 };|int x[2] = { 1, 2;|int x[] = 1;|struct st x = { 1, 2, 3 };|struct st x = { .zz = 1 };|struct st x = { .a.b = 1 };|struct st x = { [0] = 1 };|struct st x = { .a };|struct st x = { .a 1, };|struct st x = { { 1, 2 } };|union un x = { 1, 2 };|union un x = { .zz = 1 };|struct st x = 1;|struct st x = { "a", gs };|int x = { };  +|int x = ;|int x = , ;|int x 1;|int x = 1 2;|int , x;|int x,;|int x y;|int *;*|int (x;|int x);|int (*x)(;|int (*x)(int;|int x[;|int x[1;|int *x = &zz;|int x = "a" + "b";|int x = 1.5 % 2;|int x = sizeof(struct inc);|int x = sizeof(int[-1]);|int x = 1 / 0;|int x = 1 % 0;|char x = sizeof(char[-1]);
_Static_assert(0, "x");|_Static_assert(1 == 2, "x");|_Static_assert(gi, "x");|_Static_assert(1, 2);|_Static_assert(, "x");|_Static_assert(1 "x");|_Static_assert;|_Static_assert(sizeof(int) == 5, "x");|_Alignas(3) int x;|_Alignas(gi) int x;|_Alignas(-8) int x;|_Alignas() int x;|_Alignas int x;|_Alignas(zz) int x;|inline int x;|_Noreturn int x;|__declspec(align(3)) int x;|__declspec(zz|__declspec int x;|_Atomic(struct st) x;|_Atomic struct st x;|_Atomic(int x;|_Atomic(void) x;|typedef;=|static;=|int 1;|const x y;|int f(void) { } }|int x __declspec(1);'''

FILE = '''int fn(int a, int b){ return 1; }|float fn(int a, int b);|int fn(int a);|int fn(int a, float b);|int fn;|int vfn(void);|void gi(void);|float gi;|int *gi;|int gp;|int ga[5];|float ga[4];|struct st gi;|typedef float ty;|int ty;|typedef int gi;|int E0;|enum en2 { E0 = 4 };|struct st { int a; };|struct st { int a; int b; int c; };|union st { int a; };|enum en { E0 };|union un { float f; int a; };|int gd = 1; int gd2 = 1; int gd2 = 2;|int gn1 = 1; int gn1 = 1;|int gn2(void){ return 1; } int gn2(void){ return 1; }|int gn3; float gn3;|static int gn4; float gn4;|typedef int gn5; typedef char gn5;|typedef struct { int a; } gn6; typedef struct { int a; } gn6;|int gn7(int); int gn7(float);|int gn8; int gn8(void);|extern int gn9; extern float gn9;|enum { GN10 }; int GN10;|int gn11[2]; int gn11[3];|int gn12(void); float gn12(void){ return 1; }|int gn13(int a, ...); int gn13(int a);|struct bf { int b : 4; };|struct bf { unsigned b : 3; };|struct bf { int c : 3; };|struct bf { int b; };|struct bf { int : 1; int b : 3; };|struct st { int b; int a; };|struct st { int a; unsigned b; };|struct st { int a; int b[1]; };|struct st { int a; int c; };|union un { int a; double f; };|union un { int a; };|int (*gfp)(int, float);|int (*gfp)(int);|int (*gfp)(int, int, ...);|float (*gfp)(int, int);|int **gp;|unsigned gi;|int ga[4][1];|enum gn14 { GN14a = 65537 }; enum { GN14a = 1 };|int vafn(char *f);|int vafn(int *f, ...);|struct un sfn(void);|typedef int gn15[2]; typedef int gn15[3];|typedef int (*gn16)(int); typedef int (*gn16)(float);|typedef struct st gn17; typedef union un gn17;|extern char gn18; extern signed gn18;|int gn19[2]; int gn19[]; int gn19[3];
return 1;|if(1) ;|while(1) ;|for(;;) ;|{ }|}|)|]|(|[|1;|"a";|+;|fn(1, 2);|1 + 1;|case 1: ;|goto x;|break;|int f1(void) return 1; }|int f2 { }|int f3() int a; { return a; }|int f4(void) { return 1; ) }|int f5(int a b){ }|int f6(a){ return 1; }|int f7(int){ return 1 }|int f8(void){ int a = ; }|int f9(void){ if( }|int f10(void){ a: }|int f11(int a){ int a; return zz; }|int f12(void){ return zz2; }|int f13(float){ return (1; }|int f14(void), f15(void){ }|int f16[2]{ }|int f17 = fn(1, 2);|int f18 = gi;|int *f19 = gp;|int f20 = gs;|struct st f21 = gs;|float f22 = gp;|int f23 = f23b;|int f24 = &gi + gp;|int f25 = *gp;|int f26 = ga[1];|int f27 = gi++;|int f28 = (gi = 1);|int *f29 = gi ? &gi : 0;|int f30[2] = { gi };|static int f31(void); int f31b = f31();|int f32 = 1 ? gi : 2;|int f33 = sizeof(f33b);|auto int f34 = zz;|int f35(struct inc a){ return 1; }|struct inc f36(void){ }|int f37(void){ struct inc a; }|int f38(void a, int b){ }|_Thread_local int f40 = gi;|__declspec(thread) int f41 = gi;|__declspec(dllimport) int f42 = 1;|__declspec(dllimport) int f43(void){ return 1; }|__declspec(dllexport) static int f44(void){ return 1; }|__declspec(dllexport) static int f45;|__declspec(printlike) int f46(char *a);|__declspec(printlike) int f47(int a, ...);|__declspec(inline_asm) int f48(int a, ...){ mov eax, 1 return eax }|__declspec(inline_asm) int f49(void){ mov eax, 1 }'''

PP = '''#error x|#if|#if 1 +|#if (1|#if 1 / 0|#if 1 % 0|#if "a"|#if 1.5|#if 1 = 1|#if 1 ? 2|#if )|#if +|#else|#elif 1|#elif|#endif|#ifdef|#ifdef 1|#ifndef|#ifndef +|#if defined|#if defined(|#if defined(X|#if defined 1|#include|#include "none.h"|#include <none.h>|#include "none.h|#include <none.h|#include 1|#define|#define 1|#define +|#define F1(|#define F2(x|#define F3(x, x) 1|#define F4(1) 1|#define F5(..., x) 1|#define F6(x y) 1|#define F7(x,) 1|#define F8(x) #y|#define F9(x) #|#define F10 ## a|#define F11 a ##|#define F12(x) ## x|#define F13(x) x ##|#undef|#undef 1|#zz|#1 x y
int x1 = M2(1);|int x2 = M2(1, 2, 3);|int x3 = M2();|int x4 = M2(1, +|int x5 = OBJ(1);|int x6 = OBJ OBJ;|#define defined 1|#undef defined|#define __FILE__ 1|#if 1\\n#else\\n#else\\n#endif|#if 1\\n#else\\n#elif 1\\n#endif|#if 0\\n#else\\n#elif 0\\n#endif|#if 0|#ifdef zz|#ifndef zz|#if 1|/* unterminated|"unterminated|int x7 = 'a;|char *x8 = "abc|#pragma pack(3)|#pragma pack(push, 3)|#pragma pack(zz)'''

GOOD_S = '''gi = 1;|gs = gs2;|gp = &gi;|fn(1, 2);|gi = gs.a + gsp->b;|*gp = 3;|gp[1] = 2;|gi = gp - gp;|gp += 1;|gi = gf;|gf = gi;|gi = (int)gf;|for(;;) break;|while(gi) continue;|switch(gi){ case 1: case 2: break; default: ; }|goto q; q: ;|return 1;|int x = 1; { int x = 2; }|struct st x = { 1, .b = 2 };|int x[2] = { 1, [1] = 2 };|char x[4] = "abc";|static int x = 3;|typedef int t9; t9 x;|gi = _Generic(gi, int: 1, default: 2);|_Static_assert(sizeof(int) == 4, "x");|gi = sizeof(struct st);|__asm__ { mov eax, gi }|__try { gi = 1; } __except(1) { gi = 2; }|do ; while(gi);|if(gi) ; else ;|gi = gi ? 1 : 2;|gi = M2(1, + 2);|gbf.b = 1;|vafn("", gs.a, gf);|gfp(1, 2);|(*gfp)(1, 2);|(void)gi;|gi = -gi + ~gi + !gi;|sfn();|gi = sfn().a;'''
GOOD_F = '''int y1;|int y2 = 1;|extern int gi;|int fn(int a, int b);|typedef int ty;|struct st y3 = { 1 };|int y4[] = { 1, 2 };|enum { Y5 = 5 };|static int y6(void){ return 1; }|int *y7 = &gi;|int (*y8)(int, int) = fn;|char y9[] = "abc";|_Static_assert(1, "x");|struct y10 { int a : 3; int : 0; };|_Alignas(8) int y11;|#define Y12(x) #x|#undef Y12|#if 1|#pragma pack()|int y13(void){ return fn(1, 2); }'''


def lines(t, sep='|'):
    """'|' separates the entries of a line unless it is an operator (surrounded by blanks, doubled, or in |=)."""
    import re
    out = []
    for l in t.split('\n'):
        out += [x for x in re.split(r'(?<![|\s])\|(?![|\s=])|(?<=[ ;:,.])\|(?=[^ |=])(?<! \|)', l) if x.strip()]
    return out


# accepted, by design or with a warning: lenient, but not a constraint this compiler implements
ACCEPTED = {
    'decl:enum x;',
    'decl:extern static int x;',
    'decl:int x(int, void);',
    'decl:static extern int x;',
    'decl:typedef extern int x;',
    'decl:typedef static int x;',
    'expr:(&gs).a',
    'expr:0x1.8',
    'expr:enum en',
    'expr:gi : 1',
    'expr:ginc',
    'expr:gsp.a',
    'expr:int',
    'expr:int gi',
    'expr:struct st',
    'expr:ty',
    'expr:void',
    'fdecl:enum zz x;',
    'fdecl:enum { } x;',
    'fdecl:int x(int, void);',
    'fdecl:int x[];',
    'fdecl:typedef extern int x;',
    'fdecl:typedef static int x;',
    'file:enum en { E0 };',
    'file:typedef struct { int a; } gn6; typedef struct { int a; } gn6;',
    'pp:#pragma pack(3)',
    'pp:#pragma pack(push, 3)',
    'pp:#pragma pack(zz)',
    'pp:#undef defined',
    'ppS:#pragma pack(3)',
    'ppS:#pragma pack(zz)',
    'ppS:#undef defined',
    'stmt:if(gi)',
    'stmt:return',
    'decl:enum zz x;',
    'decl:enum { A4, A4 } x;',
    'decl:enum { } x;',
    'decl:int x(int a, int a) { }',
    'decl:int x[];',
    'expr:\\',
    'fdecl:enum x;',
    'fdecl:int x(int a, int a) { }',
    'file:int f10(void){ a: }',
    'file:int f38(void a, int b){ }',
    'stmt:enum t2 { B, B };',
    'stmt:enum { A }; enum { A };',
    'stmt:for(int i, i; ; ) ;',
    'stmt:int t3; typedef int t3;',
    'stmt:int x, x;',
    'stmt:int x; float x;',
    'stmt:int x; int x(void);',
    'stmt:int x; int x;',
    'stmt:int x; { int y; int y; }',
    'stmt:struct t1 { int a; }; struct t1 { int b; };',
    'stmt:typedef int t4; int t4;',
    'stmt:typedef int t5; typedef float t5;',
}
# the diagnostic names the place where the construct starts, ends, or where what it refers to is declared
ELSEWHERE = {
    'decl:int f(void) { } }',
    'decl:enum { A11 = 1 x;',
    'decl:int x[2] = { 1, 2;',
    'decl:struct { int a; x;',
    'expr:*&ginc',
    'expr:ginc = ginc',
    'expr:ginc.a',
    'expr:sizeof ginc',
    'decl:int x = { };  +',
}
# violations only because of what was declared before
ORDER = set()


def catalogue():
    """[(key, 'S'|'F', line)]"""
    return [x for x in catalogue_all() if x[0] not in ACCEPTED]


def catalogue_all():
    out = []
    for i, x in enumerate(lines(EXPR)):
        out.append((f'expr:{x}', 'S', x + ';'))
    for i, x in enumerate(lines(STMT)):
        out.append((f'stmt:{x}', 'S', x))
    for i, x in enumerate(lines(DECL)):
        out.append((f'decl:{x}', 'S', x))
        out.append((f'fdecl:{x}', 'F', x))
    for x in lines(FILE):
        out.append((f'file:{x}', 'F', x))
    for x in lines(PP):
        out.append((f'pp:{x}', 'F', x.replace('\\n', '\n')))
        out.append((f'ppS:{x}', 'S', x.replace('\\n', '\n')))
    return out
