from common import *
import itertools

# Nodes: every node consumes the result of its predecessor in a chain and provides results to its successor.
#   K  an integer constant expression (small, positive)       T  a complete type name
#   O  an object (name, static storage)                       F  a function of no arguments returning int
#   P  an incomplete or complete struct, only used by pointer
# template: (name, needs, text with {i} own number and {x} the input, provides {kind: expression}, observations)
HE = 'typedef unsigned char u8; typedef unsigned long long u64; '
NODES = [
    ('root', '', 'enum {{ R{i} = 3 }};', {'K': 'R{i}'}, []),
    ('rootmacrofree', '', 'typedef char RT{i}[5];', {'T': 'RT{i}', 'K': 'sizeof(RT{i})'}, []),
    ('rootstruct', '', 'struct RS{i} {{ char a[3]; short b; }};', {'T': 'struct RS{i}', 'P': 'struct RS{i}'}, []),
    ('rootobj', '', 'int RO{i}[] = {{ 4, 5, 6 }};', {'O': 'RO{i}', 'K': 'sizeof(RO{i})'}, []),
    ('rootfun', '', 'int RF{i}(void){{ static int c = 3; return c++; }}', {'F': 'RF{i}'}, []),
    # constants
    ('enum', 'K', 'enum {{ E{i} = {x} + 1, F{i} }};', {'K': 'F{i}'}, ['E{i}', 'F{i}']),
    ('enumtag', 'K', 'enum ET{i} {{ A{i} = {x}, B{i} }};', {'K': 'B{i}', 'T': 'enum ET{i}'}, ['A{i}', 'sizeof(enum ET{i})']),
    ('tdenum', 'K', 'typedef enum {{ TE{i} = {x} * 2 }} TN{i};', {'K': 'TE{i}', 'T': 'TN{i}'}, ['sizeof(TN{i})']),
    ('structarr', 'K', 'struct SA{i} {{ char a[{x}]; int b; }};', {'T': 'struct SA{i}', 'K': '((u64)&((struct SA{i} *)0)->b)', 'P': 'struct SA{i}'}, ['sizeof(struct SA{i})']),
    ('unionarr', 'K', 'union UA{i} {{ char a[{x}]; short b; }};', {'T': 'union UA{i}'}, ['sizeof(union UA{i})']),
    ('tdarr', 'K', 'typedef short TA{i}[{x}];', {'T': 'TA{i}', 'K': '(sizeof(TA{i}) / 2)'}, ['sizeof(TA{i})']),
    ('bits', 'K', 'struct BF{i} {{ unsigned a : 1 + {x} % 7, b : 3; u8 c; }};', {'T': 'struct BF{i}'}, ['sizeof(struct BF{i})']),
    ('garr', 'K', 'char GA{i}[{x}];', {'O': 'GA{i}', 'K': 'sizeof(GA{i})'}, ['sizeof(GA{i})']),
    ('ginit', 'K', 'long long GI{i} = {x};', {'O': 'GI{i}'}, ['GI{i}']),
    ('gdesig', 'K', 'short GD{i}[] = {{ [{x}] = 7, 9 }};', {'O': 'GD{i}', 'K': '(sizeof(GD{i}) / 4 + 1)'}, ['sizeof(GD{i})', 'GD{i}[{x}]']),
    ('sassert', 'K', '_Static_assert({x} > 0, "positive"); enum {{ SS{i} = {x} }};', {'K': 'SS{i}'}, ['SS{i}']),
    ('fcase', 'K', 'int FC{i}(void){{ switch(one_() * {x}){{ case {x}: return 5; }} return 0; }}', {'F': 'FC{i}'}, ['FC{i}()']),
    ('flocal', 'K', 'int FL{i}(void){{ char a[{x} + 1]; static char s[{x}]; return sizeof a * 100 + sizeof s; }}', {'F': 'FL{i}'}, ['FL{i}()']),
    ('fparam', 'K', 'int FP{i}(char (*p)[{x}]){{ return sizeof *p; }}', {}, ['FP{i}(0)']),
    ('structalias', 'K', 'struct AL{i} {{ _Alignas(16) char a; char b[{x}]; }};', {'T': 'struct AL{i}'}, ['sizeof(struct AL{i})']),
    # types
    ('nest', 'T', 'struct N{i} {{ char c; {x} m; char d; }};', {'T': 'struct N{i}', 'P': 'struct N{i}'}, ['sizeof(struct N{i})', '(u64)&((struct N{i} *)0)->d']),
    ('nestarr', 'T', 'struct NA{i} {{ char c; {x} m[2]; }};', {'T': 'struct NA{i}'}, ['sizeof(struct NA{i})']),
    ('anon', 'T', 'typedef struct {{ {x} m; char c; }} AN{i};', {'T': 'AN{i}'}, ['sizeof(AN{i})']),
    ('innest', 'T', 'struct IN{i} {{ union {{ {x} a; char b[2]; }} u; struct {{ char e; {x} f; }}; }};', {'T': 'struct IN{i}'}, ['sizeof(struct IN{i})', '(u64)&((struct IN{i} *)0)->f']),
    ('typedef', 'T', 'typedef {x} TD{i};', {'T': 'TD{i}'}, ['sizeof(TD{i})']),
    ('tdptr', 'T', 'typedef {x} *TP{i}; TP{i} tpo{i};', {'T': 'TP{i}', 'O': 'tpo{i}'}, ['sizeof(*tpo{i})', '(u64)((TP{i})100 + 1)']),
    ('tdfun', 'T', 'typedef int TF{i}({x} *, char); TF{i} *tfo{i};', {'O': 'tfo{i}'}, ['sizeof(tfo{i})']),
    ('gobj', 'T', '{x} GO{i};', {'O': 'GO{i}', 'K': 'sizeof(GO{i})'}, ['sizeof(GO{i})', '*(u8 *)&GO{i}']),
    ('gobjarr', 'T', '{x} GR{i}[3]; char *GRp{i} = (char *)&GR{i}[1];', {'O': 'GR{i}'}, ['sizeof(GR{i})', 'GRp{i} - (char *)GR{i}']),
    ('tentative', 'T', 'extern {x} TV{i}; {x} TV{i};', {'O': 'TV{i}'}, ['sizeof(TV{i})']),
    ('esize', 'T', 'enum {{ ES{i} = sizeof({x}) }};', {'K': 'ES{i}'}, ['ES{i}']),
    ('ealign', 'T', 'enum {{ EA{i} = _Alignof({x}) + sizeof({x}[2]) }};', {'K': 'EA{i}'}, ['EA{i}']),
    ('fret', 'T', 'struct FR{i} {{ {x} m; }}; struct FR{i} fr{i}(void){{ static struct FR{i} x; *(u8 *)&x = 9; return x; }} int frc{i}(void){{ struct FR{i} v = fr{i}(); return *(u8 *)&v; }}', {'F': 'frc{i}', 'T': 'struct FR{i}'}, ['frc{i}()']),
    ('farg', 'T', 'struct FA{i} {{ {x} m; char z; }}; int fa{i}(struct FA{i} a, char c){{ return a.z + c; }} int fac{i}(void){{ struct FA{i} v; v.z = 4; return fa{i}(v, 3); }}', {'F': 'fac{i}'}, ['fac{i}()']),
    ('fbody', 'T', 'int fb{i}(void){{ {x} v; {x} *p = &v; p += 2; p++; --p; return (int)((char *)p - (char *)&v) + sizeof *p; }}', {'F': 'fb{i}'}, ['fb{i}()']),
    ('fcast', 'T', 'u64 fcs{i}(void){{ return (u64)(({x} *)64 + 2) + (({x} *)one_() == ({x} *)1) + (u64)&(({x} *)64)[1]; }}', {}, ['fcs{i}()']),
    ('castconst', 'T', 'u64 cc{i}[] = {{ (u64)(({x} *)64 + 2), (u64)&(({x} *)64)[3], sizeof(*({x} *)0) }};', {'O': 'cc{i}'}, ['cc{i}[0]', 'cc{i}[1]', 'cc{i}[2]']),
    ('flit', 'T', 'struct LT{i} {{ char a; {x} b; }}; int flt{i}(void){{ return sizeof((struct LT{i}){{ 7 }}) + (struct LT{i}){{ 7 }}.a; }}', {'F': 'flt{i}'}, ['flt{i}()']),
    # pointers to structs
    ('pobj', 'P', '{x} *PO{i};', {'O': 'PO{i}'}, ['sizeof(*PO{i})', '(u64)(PO{i} + 2)', '(u64)&PO{i}[3]']),
    ('pmember', 'P', 'struct PM{i} {{ {x} *p; struct PM{i} *self; {x} *q[2]; }};', {'T': 'struct PM{i}', 'P': 'struct PM{i}'}, ['sizeof(struct PM{i})', 'sizeof(*((struct PM{i} *)0)->q[1])', 'sizeof(((struct PM{i} *)0)->self->self->p[0])']),
    ('parith', 'P', 'long long pa{i}({x} *a, {x} *b){{ {x} *c = a; c++; c += 2; --c; c -= 1; a++; return (a - b) * 1000 + ((char *)(2 + c) - (char *)b) + sizeof *a + (&a[1] == b + 1); }}', {}, ['pa{i}((void *)4096, (void *)4096)']),
    ('pdecl', 'P', 'int pd{i}({x} *, {x} (*)[2]); int pd{i}({x} *a, {x} (*b)[2]){{ return (char *)(b + 1) - (char *)b == 2 * sizeof *a; }}', {}, ['pd{i}(0, 0)']),
    ('ptd', 'P', 'typedef {x} PT{i}; PT{i} *pto{i};', {'T': 'PT{i}', 'P': 'PT{i}', 'O': 'pto{i}'}, ['sizeof(*pto{i})', 'sizeof(PT{i})']),
    ('ploc', 'P', 'int pl{i}(void){{ static {x} *s; {x} *l = s; {x} **m = &l; return (int)((char *)(*m + 1) - (char *)l); }}', {'F': 'pl{i}'}, ['pl{i}()']),
    # objects
    ('addr', 'O', 'void *AD{i} = &{x};', {'O': 'AD{i}'}, ['AD{i} == &{x}']),
    ('addrtab', 'O', 'static void *AT{i}[] = {{ 0, &{x}, (char *)&{x} + 1 }}; void *atf{i}(int k){{ return AT{i}[k]; }}', {}, ['atf{i}(1) == &{x}', '(char *)atf{i}(2) - (char *)&{x}']),
    ('addrst', 'O', 'struct AS{i} {{ void *p; int k; }} as{i} = {{ &{x}, sizeof({x}) }};', {'O': 'as{i}', 'T': 'struct AS{i}'}, ['as{i}.p == &{x}', 'as{i}.k']),
    ('osize', 'O', 'enum {{ OS{i} = sizeof({x}) }};', {'K': 'OS{i}'}, ['OS{i}']),
    ('ouse', 'O', 'int ou{i}(void){{ return (*(u8 *)&{x} & 0) + 2 * (((u8 *)&{x}) + sizeof({x}) == (u8 *)(&{x} + 1)) + 4 * sizeof({x}); }}', {'F': 'ou{i}'}, ['ou{i}()']),
    ('ostat', 'O', 'int oz{i}(void){{ static void *p = &{x}; return p == (void *)&{x}; }}', {'F': 'oz{i}'}, ['oz{i}()']),
    ('oarr', 'O', 'char OA{i}[sizeof({x}) + 1];', {'O': 'OA{i}'}, ['sizeof(OA{i})']),
    # functions
    ('fcall', 'F', 'int fcl{i}(void){{ return {x}() + 1; }}', {'F': 'fcl{i}'}, ['fcl{i}()']),
    ('ftab', 'F', 'int (*FT{i}[])(void) = {{ {x}, &{x} }};', {'O': 'FT{i}'}, ['FT{i}[1]()', 'FT{i}[0] == {x}', 'sizeof(FT{i})']),
    ('fpst', 'F', 'struct FS{i} {{ int (*f)(void); }} fs{i} = {{ {x} }}; int fsc{i}(void){{ return fs{i}.f(); }}', {'F': 'fsc{i}', 'O': 'fs{i}'}, ['fsc{i}()']),
    ('fptr', 'F', 'int fpp{i}(void){{ static int (*p)(void) = {x}; int (*q)(void) = {x}; return p() + q() + (p == q); }}', {'F': 'fpp{i}'}, ['fpp{i}()']),
    ('fpar', 'F', 'int fpr{i}(int (*p)(void)){{ return p() * 2; }} int fpq{i}(void){{ return fpr{i}({x}); }}', {'F': 'fpq{i}'}, ['fpq{i}()']),
]
NODES = [n for n in NODES if n[4] is not None]


def split(text):
    """text of a node -> its file-scope declarations"""
    out, depth, cur = [], 0, ''
    for ch in text:
        cur += ch
        if ch in '{(':
            depth += 1
        elif ch in '})':
            depth -= 1
        if depth == 0 and (ch == ';' or ch == '}'):
            # a closing brace of a type definition is followed by ; or a declarator
            if ch == '}' and not re.search(r'\)\s*\{', cur):
                continue
            if ch == '}' and re.match(r'\s*(typedef|struct \w+ \{|union|enum|static void \*|void \*|u64 cc|short|int \(\*)', cur):
                continue
            if cur.strip() == ';':
                out[-1] += ';'
            elif cur.strip():
                out.append(cur.strip())
            cur = ''
    if cur.strip():
        out.append(cur.strip())
    return out


class Chain:
    def __init__(self, names, i):
        self.key = '-'.join(names[1:] if names[0].startswith('root') and len(names) > 3 else names)
        self.key = '-'.join(names)
        self.nodes, self.obs = [], []
        prev = None
        for k, nm in enumerate(names):
            n = BY[nm]
            x = prev[n[1]] if n[1] else ''
            j = f'{i}_{k}'
            self.nodes.append(n[2].format(i=j, x=x))
            prev = {a: b.format(i=j) for a, b in n[3].items()}
            self.obs += [o.format(i=j, x=x) for o in n[4]]
        self.observe = f'static void t{i}(void){{ ' + ' '.join(f'O({o});' for o in self.obs) + ' }'


BY = {n[0]: n for n in NODES}


def chains(length):
    def rec(pre):
        if len(pre) == length:
            yield tuple(pre)
            return
        for n in NODES:
            if pre and n[1] and n[1] in BY[pre[-1]][3]:
                yield from rec(pre + [n[0]])
            if not pre and not n[1]:
                yield from rec([n[0]])
    return list(rec([]))


ONE = 'int one_(void){ return 1; }'
HD = HEAD + 'int one_(void);\n'


def program(cs, order, part, nfiles, runfirst):
    """order: permutation of node positions; part: file of each node position"""
    files = [HE + '\n'] + [HE + '\n' for _ in range(nfiles - 1)]
    for f in range(nfiles):
        for k in order:
            if part[k] != f:
                continue
            for ch in cs:
                if k < len(ch.nodes):
                    files[f] += ch.nodes[k] + '\n'
    run = ''.join(ch.observe + '\n' for ch in cs)
    off = 0
    body = ''
    for i, ch in enumerate(cs):
        n = len(ch.obs)
        body += f'if(w == {i} || w == ~0ull){{ o_ = buf + {off}; t{ch.num}(); }}\n'
        off += n
    run += f'__declspec(dllexport) u64 run(u64 *buf, u64 n){{ u64 w = buf[0]; buf[0] = 0;\n{body} return {off * 8}; }}\n'
    d = HD + ONE + '\n' + run
    return files, d, off


def execute(c, cs, files, d, off, args, cfg, exp, depth=0):
    src = {f'f{i}.c': t for i, t in enumerate(files)}
    names = list(src)
    src['d.c'] = d
    order = cfg['files']
    nm = [names[k] if k >= 0 else 'd.c' for k in order]
    cmd = ' '.join(nm) + ' /dll /no_entry /no_stdlib /no_debug /quiet /out x.dll ' + args
    if cfg.get('single'):
        src = {'a.c': (d + files[0]) if cfg['single'] == 'first' else (HD + files[0].replace(HE, '') + ONE + d[len(HD) + len(ONE):])}
        cmd = 'a.c /dll /no_entry /no_stdlib /no_debug /quiet /out x.dll ' + args
    r = c.e.compile(src, cmd)
    dll = r.files.get('x.dll')
    c.count(len(cs))
    bad = None
    if r.kind != 'exit' or r.code or not dll:
        bad = f'valid program not compiled: {r}'
    else:
        r = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=off * 8 + 64)
        if r.kind != 'exit':
            bad = f'program crashes: {r}'
        elif r.buf != exp:
            o = 0
            for ch in cs:
                n = len(ch.obs) * 8
                if r.buf[o:o + n] != exp[o:o + n]:
                    c.violation(f'chain/{ch.key}', f'[{cfg["name"]}] ' + ' '.join(ch.obs) + f'\n got {struct.unpack("<%dQ" % (n // 8), r.buf[o:o + n])} expected {struct.unpack("<%dQ" % (n // 8), exp[o:o + n])}', {**src, 'cmdline.txt': cmd})
                o += n
            return True
    return bad and (bad, src, cmd)


def run_cfg(c, cs, cfg, exps):
    def go(cs, exps):
        files, d, off = program(cs, cfg['order'], cfg['part'], cfg['n'], None)
        b = execute(c, cs, files, d, off, cfg['args'], cfg, b''.join(exps))
        if isinstance(b, tuple):
            if len(cs) > 1:
                h = len(cs) // 2
                go(cs[:h], exps[:h])
                go(cs[h:], exps[h:])
            else:
                c.violation(f'chain/{cs[0].key}', f'[{cfg["name"]}] {b[0]}', {**b[1], 'cmdline.txt': b[2]})
    go(cs, exps)


def configs(L, th):
    """declaration orders x partitions over files x command-line orders x seeds"""
    out = []
    idx = list(range(L))
    perms = list(itertools.permutations(idx))
    for p in perms:
        for s in ('first', 'last'):
            out.append(dict(name=f'order {p} observers {s}', order=p, part=[0] * L, n=1, args='', files=[0], single=s))
    for seed in range(1, 9 if th else 4):
        for p in (perms[0], perms[-1]):
            out.append(dict(name=f'order {p} seed {seed}', order=p, part=[0] * L, n=1, args=f'/seed {seed}', files=[0], single='first'))
    for part in itertools.product(range(L), repeat=L):
        n = max(part) + 1
        if sorted(set(part)) != list(range(n)) or n == 1:
            continue
        if [p for i, p in enumerate(part) if p not in part[:i]] != list(range(n)):
            continue    # canonical numbering of the files
        fo = list(itertools.permutations(list(range(n)) + [-1]))
        for p in ([perms[0], perms[-1]] if not th else perms):
            for f in (fo if n == 2 or th else [fo[0], fo[-1], fo[len(fo) // 2 + 1]]):
                out.append(dict(name=f'order {p} files {part} command line {f}', order=p, part=part, n=n, args='', files=f))
    return out


# ---------------------------------------------------------------- ill-formed sets: rejected under every order
ILL = [
    ('cycle-struct', ['struct A { struct B b; };', 'struct B { struct A a; };']),
    ('cycle-struct3', ['struct A { struct B b; };', 'struct B { struct C c; };', 'struct C { struct A a[2]; };']),
    ('cycle-self', ['struct A { struct A a; };', 'int x;']),
    ('cycle-enum', ['enum { A = B + 1 };', 'enum { B = A + 1 };']),
    ('cycle-enum-size', ['enum { A = sizeof(struct S) };', 'struct S { char c[A]; };']),
    ('cycle-typedef', ['typedef A B;', 'typedef B A;']),
    ('cycle-typedef3', ['typedef A B;', 'typedef C A;', 'typedef B *C;']),
    ('cycle-array', ['char a[sizeof(b)];', 'char b[sizeof(a)];']),
    ('cycle-union-typedef', ['typedef union U T;', 'union U { T t; int a; };']),
    ('unknown-type', ['struct A { T t; };', 'enum { B = sizeof(struct A) };']),
    ('unknown-struct', ['struct A { struct Q q; };', 'struct A *p;', 'int s = sizeof(*p);']),
    ('unknown-const', ['enum { A = NOPE };', 'char c[A];']),
    ('unknown-const2', ['char c[A];', 'enum { A = B };', 'int y;']),
    ('unknown-object', ['void *p = &nope;', 'int z;']),
    ('unknown-function', ['int f(void){ return g(); }', 'int h(void){ return f(); }']),
    ('conflict-var', ['int x;', 'float x;']),
    ('conflict-var-array', ['int x[2];', 'int x[3];']),
    ('conflict-kind', ['int x;', 'int x(void){ return 0; }']),
    ('conflict-kind2', ['typedef int x;', 'int x;']),
    ('conflict-enum', ['enum { x = 3 };', 'int x;']),
    ('conflict-enum2', ['enum { x = 3 };', 'enum { x = 4 };']),
    ('conflict-typedef', ['typedef int T;', 'typedef float T;']),
    ('conflict-fun', ['int f(int a);', 'int f(float a){ return a; }']),
    ('conflict-fun-ret', ['int f(void);', 'float f(void);']),
    ('conflict-struct', ['struct S { int a; };', 'struct S { float a; };']),
    ('conflict-tag-kind', ['struct S { int a; };', 'union S { int a; };']),
    ('conflict-tag-kind2', ['struct S { int a; };', 'enum S { a };']),
    ('conflict-tag-kind3', ['struct S *p;', 'union S { int a; };', 'int q;']),
    ('redef-fun', ['int f(void){ return 1; }', 'int f(void){ return 1; }']),
    ('redef-var', ['int x = 1;', 'int x = 1;']),
    ('bad-init', ['struct S { int a; };', 'int x = (struct S){ 1 };']),
    ('bad-init2', ['struct S s;', 'struct S { int a; };', 'int *x = s;']),
    ('bad-assert', ['_Static_assert(sizeof(struct S) == 3, "s");', 'struct S { char c[4]; };']),
    ('bad-assert2', ['_Static_assert(A == 3, "s");', 'enum { A = B };', 'enum { B = 4 };']),
    ('negative-array', ['char c[A];', 'enum { A = -1 };']),
    ('assert-unknown', ['_Static_assert(NOPE, "");', 'int a;']),
    ('assert-size', ['_Static_assert(sizeof(o) == 2, "");', 'extern struct S o;', 'struct S { char c[3]; };']),
    ('align-extern', ['enum { A = 1 / (_Alignof(struct S) - 4) };', 'struct S { T c; };', 'typedef int T;']),
    ('not-constant2', ['enum { A = y };', 'int y = 2;']),
    ('not-constant3', ['char a[f()];', 'int f(void){ return 2; }']),
    ('incomplete-member', ['struct S { struct T t; };', 'struct T;', 'struct S s;']),
    ('call-args', ['int f(int a, int b){ return a + b; }', 'int g(void){ return f(1); }']),
    ('call-nonfun', ['int f;', 'int g(void){ return f(1); }']),
    ('member', ['struct S { int a; };', 'int f(struct S *s){ return s->b; }']),
    ('member2', ['struct S s;', 'int f(void){ return s.b; }', 'struct S { int a; };']),
    ('arg-type', ['struct S { int a; };', 'int f(struct S s){ return s.a; }', 'int g(void){ return f(3); }']),
    ('ret-type', ['struct S { int a; };', 'int f(void){ struct S s; return s; }']),
    ('assign-type', ['struct S { int a; };', 'typedef struct { int a; } T;', 'void f(struct S s, T t){ s = t; }']),
    ('case-dup', ['enum { A = B };', 'enum { B = 2 };', 'int f(int x){ switch(x){ case A: return 1; case B: return 2; } return 3; }']),
    ('void-var', ['typedef void V;', 'V v;']),
    ('deref-int', ['int x;', 'int f(void){ return *x; }']),
    ('fun-array', ['typedef int F(void);', 'F f[3];']),
    ('thread-local', ['__declspec(thread) int x;', 'int x;']),
    ('bitfield-width', ['struct S { int a : W; };', 'enum { W = 40 };']),
]


def ill(c, th):
    jobs = []
    for key, ds in ILL:
        ds = ds
        for p in itertools.permutations(range(len(ds))):
            t = [ds[k] for k in p]
            jobs.append((key, f'order {p}', {'a.c': '\n'.join(t) + '\n'}, 'a.c'))
            jobs.append((key, f'order {p}, more declarations around', {'a.c': 'int before_;\n' + '\nint between_;\nenum { bet_ = 3 };\n'.join(t) + '\nstruct after_ { int a; };\n'}, 'a.c'))
            for s in (1, 2, 3) if th else (1,):
                jobs.append((key, f'order {p} seed {s}', {'a.c': '\n'.join(t) + '\n'}, f'a.c /seed {s}'))
            if not key.startswith(('thread',)):
                jobs.append((key, f'order {p} in separate files', {f'f{i}.c': x + '\n' for i, x in enumerate(t)}, ' '.join(f'f{i}.c' for i in range(len(t)))))
    c.cov['ill_formed_programs'] = len(jobs)

    def one(j):
        key, how, src, cmd = j
        r = c.e.compile({**src, 'm.c': '__declspec(dllexport) int run(void){ return 0; }'}, cmd + ' m.c /dll /no_entry /no_stdlib /no_debug /quiet /out x.dll')
        c.count(1)
        c.seen('ill/' + key)
        if r.kind != 'exit' or r.code != 1 or 'x.dll' in r.files or b'rror' not in r.out:
            c.violation('ill/' + key + ('/files' if 'separate' in how else ''), f'[{how}] ill-formed program not rejected cleanly: {r}', {**src, 'cmdline.txt': cmd})
    c.e.map(one, jobs)


def body(c):
    ill(c, c.thorough)
    num = 0
    for L in (2, 3):
        cs = []
        for ns in chains(L):
            ch = Chain(ns, num)
            ch.num = num
            num += 1
            cs.append(ch)
        if not c.thorough and L == 3:
            pass
        cfgs = configs(L, c.thorough)
        c.cov[f'chains_of_{L}'] = len(cs)
        c.cov[f'configurations_of_{L}'] = len(cfgs)
        B = 60
        batches = [cs[i:i + B] for i in range(0, len(cs), B)]
        exps = {}

        def ref(b):
            files, d, off = program(b, list(range(L)), [0] * L, 1, None)
            src = HD + files[0].replace(HE, '') + ONE + d[len(HD) + len(ONE):]
            try:
                dll = c.ref.dll(src)
            except RefError as e:
                raise EngineError('reference rejected: ' + str(e)[-2500:])
            r = c.e.run_dll(dll, inp=hx.u64(-1), bufsize=off * 8 + 64)
            if r.kind != 'exit':
                raise EngineError(f'reference crashed {r}')
            o = 0
            for ch in b:
                n = len(ch.obs) * 8
                exps[ch.num] = r.buf[o:o + n]
                if any(r.buf[o:o + n]):
                    c.seen(ch.key)
                o += n
        c.e.map(ref, batches)
        jobs = [(b, cfg) for b in batches for cfg in cfgs]
        c.e.map(lambda j: run_cfg(c, j[0], j[1], [exps[ch.num] for ch in j[0]]), jobs)
        c.sample({'chain': cs[len(cs) // 2].key, 'declarations': cs[len(cs) // 2].nodes, 'observed': cs[len(cs) // 2].obs})
    c.sample({'ill-formed set': ILL[3]})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every chain of 2 and 3 dependent declarations over the node alphabet x every order of the declarations (observing functions before or after) x every partition over up to 3 files x command-line orders x seeds, compared with clang-18 on the canonical order; every ill-formed set x every order, also split over files, must be rejected. Non-trivial: some observation non-zero.'
    c.assumptions += ['clang-18 on the canonical declaration order is the meaning of the program']


if __name__ == '__main__':
    main('C08', 'exploration', body)
