from common import *
import itertools, subprocess, tempfile, posixpath
from c10 import PP, toks, sections, lists


class Tree:
    """one set of files, preprocessed by clang -E and by hlc"""
    def __init__(self, c):
        self.c = c

    def clang(self, files, args=()):
        d = tempfile.mkdtemp(dir=self.c.build.dir)
        for n, t in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='', encoding='latin1') as f:
                f.write(t)
        r = subprocess.run(['clang-18', '-E', '-P', '-std=c11', '-w', '-nostdinc', *[a.replace('%', d) for a in args], 'a.c'], cwd=d, capture_output=True, text=True, encoding='latin1')
        subprocess.run(['rm', '-rf', d])
        return r.returncode, r.stdout, r.stderr

    def hlc(self, files, args=''):
        r = self.c.e.compile(files, f'a.c /P /Fi out.i /quiet /no_predefines {args}', timeout=60)
        t = r.files.get('out.i', b'').decode('latin1')
        return r, re.sub(r'^#line .*$|^#pragma comment.*$', '', t, flags=re.M)

    def item(self, key, files, cargs=(), hargs=''):
        rc, out, err = self.clang(files, cargs)
        r, t = self.hlc(files, hargs)
        self.c.count(1)
        rep = {**files, 'cmdline.txt': 'hlc a.c /P /Fi out.i /no_predefines ' + hargs}
        if rc:
            if 'nested too deeply' in err:
                return
            if not (r.kind == 'exit' and r.code == 1):
                self.c.violation(key, f'ill-formed input not rejected ({err[:200]}): {r}', rep)
            self.c.seen('ill/' + key)
            return
        if r.kind != 'exit' or r.code:
            self.c.violation(key, f'valid input rejected: {r}', rep)
            return
        self.c.seen(key)
        base = lambda l: [x if x[0] != '"' else '"' + x[1:].split('/')[-1] for x in l]    # __FILE__ is the name without the directory
        if base(toks(out)) != base(toks(t)):
            self.c.violation(key, f'token sequences differ\n got      {" ".join(toks(t))}\n expected {" ".join(toks(out))}', rep)


def nest(seq):
    """model of conditional inclusion: (well formed, texts selected)"""
    st = []      # [taken, active, seen_else, outer]
    act = True
    d = {}
    out = []
    for x in seq:
        k = x.split()
        if k[0] in ('#if', '#ifdef', '#ifndef'):
            v = {'#if': lambda: k[1] == '1', '#ifdef': lambda: k[1] in d, '#ifndef': lambda: k[1] not in d}[k[0]]() if act else False
            st.append([v, act, False])
            act = act and v
        elif k[0] == '#elif':
            if not st or st[-1][2]:
                return None
            v = st[-1][1] and not st[-1][0] and k[1] == '1'
            act = v
            st[-1][0] |= v
        elif k[0] == '#else':
            if not st or st[-1][2]:
                return None
            st[-1][2] = True
            act = st[-1][1] and not st[-1][0]
            st[-1][0] = True
        elif k[0] == '#endif':
            if not st:
                return None
            act = st.pop()[1]
        elif act:
            if k[0] == '#define':
                d[k[1]] = 1
            elif k[0] == '#undef':
                d.pop(k[1], None)
            else:
                out.append(x)
    return None if st else out


def skeletons(c):
    al = ['#if 0', '#if 1', '#ifdef A', '#ifndef A', '#elif 0', '#elif 1', '#else', '#endif']
    n = 7 if c.thorough else 5
    well, ill = [], []
    for l in lists(al, 1, n):
        if nest(l) is None:
            ill.append(l)
        else:
            well.append(l)
    # unbalanced sequences are rejected (each one alone); the long ones only in the thorough tier
    ill = [l for l in ill if len(l) <= (4 if c.thorough else 3)]
    items = []
    for i, l in enumerate(well):
        s = ['T0']
        for j, x in enumerate(l):
            s.append(x.replace(' A', ' A@'))
            s.append(f'T{j + 1}')
        items.append((f'nest/{i}', '\n'.join(s)))
    # definitions inside of the branches
    al2 = al[2:5] + ['#elif 1', '#else', '#endif', '#define A', '#undef A']
    for i, l in enumerate(x for x in lists(al2, 2, 6 if c.thorough else 5) if nest(x) is not None and ('#define A' in x or '#undef A' in x)):
        s = []
        for j, x in enumerate(l):
            s += [x.replace(' A', ' A@'), f'T{j}']
        items.append((f'nestdef/{i}', '\n'.join(s)))
    # anything may stand in a skipped group
    junk = ['#foo bar', '#error no', '#include "none.h"', '#define', '#define 1', '#if', '#if (\n#endif', '#ifdef\n#endif', '#if 1\n#else\n#elif x y z\n#endif'.replace('#elif x y z\n', ''), '/* #endif\n*/', '// #endif', '"#endif"', '#if 1 \\\n\n#endif', '\\\n#define B@', '#pragma once', '#undef', '#line x', '%#endif', ' # if 1\n # endif', '\t#\tif 1\n/**/#/**/endif', '# /* x\n*/ if 1\n#endif', '#elifx', '#endifx', '#elsex', '#ifx', '#', '# # endif', 'x #endif', '#if 0\n#else\n#endif', '#if 0 // #endif\n#endif // c', '@@', '`', '\\', '#define X(', '#if defined(', '#if 1/0\n#endif', '#if 08\n#endif']
    k = 0
    for j in junk:
        for f in ('#if 0\n{}\n#endif', '#if 1\na\n#else\n{}\n#endif', '#if 1\na\n#elif 1\n{}\n#endif', '#if 0\n#if 1\n{}\n#endif\n#else\nb\n#endif', '#ifdef N@\n{}\n#elif 1\nb\n#else\n{}\n#endif', '#if 1\n#elif 1\n{}\n#else\n{}\n#endif'):
            items.append((f'junk/{k}', f.replace('{}', j) + '\nafter'))
            k += 1
    # the form of a directive line
    k = 0
    for pre in ['', ' ', '\t', '/* */', '/*\n*/', '\\\n', ' \\\n ']:
        for mid in ['', ' ', '/**/', '\\\n']:
            for post in ['', ' ', ' /* c */', '// c', '/* a\n */ ', ' \\\n']:
                for d in ['if 1', 'if 0', 'ifdef N@', 'ifndef N@', 'if/**/1', 'if(1)', 'if!0', 'if 1 \\\n && 0', 'if-1', "if'a'"]:
                    items.append((f'form/{k}', f'{pre}#{mid}{d}{post}\nyes\n{pre}#{mid}else{post}\nno\n{pre}#{mid}endif{post}\nend'))
                    k += 1
    # a conditional inside of the text of a program, many branches, deep nesting
    for n in (1, 2, 3, 10, 63, 64, 65, 100, 200):
        for v in (0, n // 2, n - 1, n):
            items.append((f'deep/elif/{n}/{v}', f'#define V@ {v}\n#if V@ == 0\nr0\n' + ''.join(f'#elif V@ == {i}\nr{i}\n' for i in range(1, n)) + '#else\nelse\n#endif\nend'))
        items.append((f'deep/if/{n}', ''.join(f'#if 1\nd{i}\n' for i in range(n)) + '#if 0\nx\n#else\ny\n#endif\n' + ''.join(f'#else\nz\n#endif\ne{i}\n' for i in range(n))))
        items.append((f'deep/if0/{n}', '#if 0\n' + ''.join(f'#if 1\nd{i}\n' for i in range(n)) + ''.join(f'#else\nz\n#endif\ne{i}\n' for i in range(n)) + '#else\ny\n#endif'))
        items.append((f'deep/skip/{n}', '#if 1\na\n#else\n' + ''.join(f'#if 1\n#elif 0\n#else\n#endif\n' for i in range(n)) + '#endif\nb'))
    return items, ill, n


def expressions(c):
    """#if operands: precedence, associativity, unevaluated operands, defined, identifiers, macros"""
    ops = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||']
    items = []

    def show(k, exprs):
        for i in range(0, len(exprs), 12):
            items.append((f'{k}/{i}', '#define ONE@ 1\n#define MIN@ -2\n#define NONE@\n#define PAR@(x) (x)\n#define ADD@ 1 + 1\n#define DEF@ defined\n' + '\n'.join(f'#if {e}\nt{j}\n#else\nf{j}\n#endif' for j, e in enumerate(exprs[i:i + 12]))))

    def ok(e):
        return True
    # value through comparison with every small constant: a op b op c
    tri = []
    import re as _re
    for a, b, d in itertools.product(ops, ops, [(1, 2, 3), (7, 2, 2), (0, 1, 4), (3, 3, 1), (5, 1, 0)]):
        if (a in ('<<', '>>') and b == '-' and d[1] < d[2]):
            continue    # negative shift count
        e = f'{d[0]} {a} {d[1]} {b} {d[2]}'
        tri += [f'({e}) == {v}' for v in (0, 1, 2, 4)] + [f'({e}) > 4', f'({e}) < 0'] if c.thorough else [f'({e}) == {v}' for v in (0, 1)] + [f'({e}) > 2', f'{e}']
    show('tri', tri)
    un = ['-', '+', '!', '~', '- -', '!!', '~-', '-~', '!-']
    show('un', [f'{u}{x} {o} {v}{y}' for u in un for v in un[:4] + [''] for o in ['+', '==', '&', '<', '>>'] for x in (0, 2) for y in (0, 3)])
    tern = []
    for a, b, d in itertools.product(['0', '1', '2 > 1'], ['0', '1', '0 ? 0 : 1', '1, 2'][:3], ['0', '1', '1 ? 0 : 1', '0 ? 1 : 0']):
        tern += [f'{a} ? {b} : {d}', f'({a} ? {b} : {d}) == 1', f'1 + ({a} ? {b} : {d})', f'{a} ? {b} : {d} + 1', f'{a} || {b} ? {d} : 0', f'{a} ? 1 ? {b} : 1 : {d}']
    show('tern', tern)
    at = ['defined A@', 'defined(ONE@)', '!defined ONE@', 'defined ( ONE@ )', 'ONE@', 'MIN@', 'PAR@(1)', 'ADD@', 'NOT@', 'PAR@(NOT@)', 'defined PAR@', 'defined(defined_@)', 'true_', 'if', 'int', "'a'", "'\\0'", 'PAR@(ONE@ + ADD@)', 'PAR@ (0)', '0x10', '010', '1u', '-1', '18446744073709551615u']
    show('atom', [f'{a} {o} {b}' for a in at for b in at for o in ['+', '==', '&&', '*', '<']] + at)
    # short circuit: the skipped operand may divide by zero
    sk = ['1/0', '1%0', '(1/0) + 2', '1 ? 1/0 : 0'][:3]
    show('skip', [e.replace('{}', s) for s in sk for e in ['0 && {}', '1 || {}', '0 && ({})', '1 ? 2 : {}', '0 ? {} : 1', '0 && ({} || 1)', '1 || ({} && 0)', '(0 && {}) || 1', '1 || 0 && {}', '0 && 1 || 1 || {}', '!(1 || {})', '0 ? 1 ? {} : {} : 1', '1 ? 1 : 0 ? {} : 2', '0 && 0 && {}', '1 || 1 || {}', '0 && {} && 1', '(1 ? 0 : {}) + 1', '1 ? (0 && {}) : 3', '0 || (1 || {})', '0 || 1 && (1 || {})']])
    bits = ['0xffffffffffffffff', '0x7fffffffffffffff', '-1', '-9223372036854775807 - 1', '4294967296', '0u', '1u', '-1u']
    show('wide', [f'({a}) {o} ({b})' for a in bits for b in bits for o in ['<', '>', '==', '<=', '+ 1 >', '- 1 <', '& 1 ==', '/ 2 >', '* 2 <']] + [f'({a}) {o} ({b}) < 0' for a in bits for b in bits for o in ['+', '-', '*', '&', '|', '^']])
    # the result of each operator is unsigned exactly when C says so (seen through - 1 < 0), also through conditional operators
    sg = ['0', '1', '2', '0u', '1u', '3u', '-1', '-4']
    sig = []
    for a in sg:
        for b in sg:
            for o in ['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']:
                if (o in ('/', '%') and b[0] == '0') or (o in ('<<', '>>') and b[0] == '-'):
                    continue
                sig += [f'(({a}) {o} ({b})) * 0 - 1 < 0', f'(({a}) {o} ({b})) - 5 > 0']
            for t in ['1', '0', '2u']:
                sig += [f'({t} ? {a} : {b}) * 0 - 1 < 0', f'({t} ? {a} : {b}) - 5 < 0', f'({t} ? {a} : 0 ? {b} : 7) - 9 < 0', f'({t} ? 1 ? {a} : {b} : 7) - 9 < 0']
    for a in sg:
        sig += [f'({u}({a})) * 0 - 1 < 0' for u in ['-', '+', '~', '!', '!!', '-~']] + [f'(0 && {a}) - 1 < 0', f'(defined A@) - 1 < 0', f'({a}, 1) - 2 < 0'][:2]
    show('sign', sig)
    return items


def include_graphs(c):
    out = []
    # bodies of the three headers: text and up to two includes, with a guard kind; 'n' none, 'o' once, 'g' guard
    bodies = []
    inc = ['b', 'c', 'd']
    for mine in inc:
        o = []
        for n in range(0, 3):
            for l in itertools.product(inc, repeat=n):
                o.append(l)
        bodies.append(o)

    def acyclic(g):
        # guards make cycles terminate; without guards a file must not reach itself through unguarded files only
        def reach(x, seen):
            for y in g[x][1]:
                if g[y][0] == 'n':
                    if y in seen or not reach(y, seen | {y}):
                        return False
            return True
        return all(reach(x, {x}) for x in g if g[x][0] == 'n') 

    def text(n, g):
        k, l = g[n]
        t = f'{n}_in __LINE__\n' + ''.join(f'#include "{y}.h"\n{n}{i} __LINE__ __FILE__\n' for i, y in enumerate(l))
        if k == 'o':
            t = '#pragma once\n' + t
        if k == 'g':
            t = f'#ifndef {n.upper()}_H\n#define {n.upper()}_H\n{t}#endif\n'
        if k == 'x':
            t = f'#ifndef {n.upper()}_H\n#define {n.upper()}_H\n{t}#else\n{n}_again\n#endif\n'
        return t
    guards = ['n', 'o', 'g', 'x'] if c.thorough else ['n', 'o', 'g']
    edges = {n: (bodies[0] if c.thorough else [l for l in bodies[0] if len(l) <= 1 or l in (('c', 'd'), ('b', 'c'), ('d', 'd'))]) for n in inc}
    tops = [('b',), ('b', 'b'), ('b', 'c'), ('c', 'b', 'd'), ('b', 'c', 'b')] if c.thorough else [('b', 'c', 'b'), ('b', 'b', 'd')]
    k = 0
    cnt = 0
    for gk in itertools.product(guards, repeat=3):
        for lb in edges['b']:
            for lc in edges['c']:
                for ld in ([(), ('b',), ('c',), ('b', 'c')] if not c.thorough else [l for l in bodies[0] if len(l) < 2] + [('b', 'c')]):
                    g = {'b': (gk[0], lb), 'c': (gk[1], lc), 'd': (gk[2], ld)}
                    if not acyclic(g):
                        continue
                    # without guards the expansion must stay small
                    for t in tops:
                        cnt += 1
                        files = {n + '.h': text(n, g) for n in inc}
                        files['a.c'] = ''.join(f'#include "{y}.h"\nA{i} __LINE__ __FILE__\n' for i, y in enumerate(t))
                        out.append((f'graph/{"".join(gk)}/{"".join(lb)}-{"".join(lc)}-{"".join(ld)}/{"".join(t)}', files, (), ''))
    return out


def lookups(c):
    """which file an include names: every subset of the places it may be in x the form of the include x the including file"""
    out = []
    places = ['x.h', 's/x.h', 'i1/x.h', 'i2/x.h', 'i1/s/x.h', 's/s/x.h']
    for n in range(0, len(places) + 1):
        for sub in itertools.combinations(places, n):
            files = {p: f'file {p.replace("/", "_").replace(".", "_")} __LINE__\n' for p in sub}
            files['i1/none.h'] = ''
            files['i2/none.h'] = ''
            for inc in ['"x.h"', '<x.h>', '"s/x.h"', '<s/x.h>', '"../x.h"', '"i1/x.h"', '"./x.h"'][:7 if c.thorough else 6]:
                for frm in ['a.c', 's/y.h', 'i1/y.h']:
                    if frm == 'a.c' and inc == '"../x.h"':
                        continue
                    f = dict(files)
                    if frm == 'a.c':
                        f['a.c'] = f'before\n#include {inc}\nafter __LINE__\n'
                    else:
                        f[frm] = f'before\n#include {inc}\nafter __LINE__\n'
                        f['a.c'] = f'#include "{frm}"\nend __LINE__\n'
                    for o, (ca, ha) in {'12': (('-I', '%/i1', '-I', '%/i2'), '/I i1 /I i2'), '21': (('-I', '%/i2', '-I', '%/i1'), '/Ii2 -Ii1')}.items():
                        if o == '21' and not ('i1/x.h' in sub and 'i2/x.h' in sub) and not c.thorough:
                            continue
                        out.append((f'lookup/{"+".join(sub)}/{inc.strip("<>")}{inc[0]}/{frm}/{o}'.replace('"', ''), f, ca, ha))
    # include_next walks the rest of the list
    for n in range(0, 4):
        for sub in itertools.combinations(['i1/x.h', 'i2/x.h', 'i3/x.h'], n):
            f = {p: f'file {p[:2]} __LINE__\n' + '#include_next <x.h>\n' * (p != sub[-1]) + f'back {p[:2]} __LINE__\n' for p in sub}
            for d in ('i1', 'i2', 'i3'):
                f[d + '/none.h'] = ''
            f['a.c'] = '#include <x.h>\nend __LINE__\n'
            out.append((f'next/{"+".join(sub)}', f, ('-I', '%/i1', '-I', '%/i2', '-I', '%/i3'), '/I i1 /I i2 /I i3'))
    # the names of the directories may be initial parts of each other
    D = ['i', 'i1', 'i12', 'i1/s', 'i1/s/i']
    for order in itertools.permutations(D, 3):
        for n in range(1, 4):
            for sub in itertools.combinations(order, n):
                f = {d + '/x.h': f'file {d.replace("/", "_")} __LINE__\n' + '#include_next <x.h>\n' * (d != sub[-1]) + f'back {d.replace("/", "_")} __LINE__\n' for d in sub}
                for d in order:
                    f[d + '/none.h'] = ''
                f['a.c'] = '#include <x.h>\nend __LINE__\n'
                out.append((f'next/{",".join(order)}/{"+".join(sub)}', f, tuple(x for d in order for x in ('-I', '%/' + d)), ' '.join('/I ' + d for d in order)))
    # the operand may come from macros; __has_include
    for i, t in enumerate(['#define H "x.h"\n#include H\n', '#define H <x.h>\n#include H\n', '#define S(x) #x\n#define Q(x) S(x)\n#define N x.h\n#include Q(N)\n', '#define H H2\n#define H2 "x.h"\n#include H // c\n', '#define X_ x.h\n#define L(a) <a>\n#include L(X_)\n', '#include /* c */ "x.h" /* d */\n', '#include"x.h"\n', '#include<x.h>\n', ' # include "x.h"\n', '#include \\\n"x.h"\n', '#define E\n#include E "x.h"\n', '#if 0\n#include "none.h"\n#endif\n', '#define inc include\n#include "x.h"\n',
                           '#define H "x.h"\n#include H\n#undef H\n#define H "y.h"\n#include H\n', '#define D sub\n#define S(x) #x\n#define Q(x) S(x)\n#include Q(D/z.h)\n',
                           '#if __has_include("x.h")\nhas\n#else\nno\n#endif\n', '#if __has_include(<x.h>)\nhas\n#else\nno\n#endif\n', '#if __has_include("none.h")\nhas\n#else\nno\n#endif\n', '#if __has_include(<none.h>) || __has_include("x.h") && !__has_include("q.h")\nhas\n#else\nno\n#endif\n', '#ifdef __has_include\nyes\n#endif\n', '#if defined(__has_include) && __has_include("x.h")\nyes\n#endif\n', '#define H <x.h>\n#if __has_include(H)\nyes\n#else\nno\n#endif\n', '#if !__has_include("none.h")\nyes\n#endif\n', '#if __has_include("none.h")\n#include "none.h"\n#elif __has_include("x.h")\n#include "x.h"\n#else\n#error none\n#endif\n',
                           '#include "none.h"\n', '#include <none.h>\n', '#include x.h\n', '#include\n', '#include "x.h\n', '#include <x.h\n', '#define H 5\n#include H\n']):
        out.append((f'operand/{i}', {'a.c': t + 'end __LINE__\n', 'i1/x.h': 'i1x __LINE__ __FILE__\n', 'x.h': 'x __LINE__ __FILE__\n', 'y.h': 'y __LINE__\n', 'sub/z.h': 'z\n'}, ('-I', '%/i1'), '/I i1'))
    # macros and conditionals across files; files without a final newline; empty files
    for i, (b, t) in enumerate(itertools.product(['', 'x', 'x\n', 'x // c', '#define Q 1', '#undef P', '#define P 2\n', '#if 1\nx\n#endif', '#if 0\nx\n#endif', '/* c */', '#define F(x) [x]', 'P Q', '\\\n', '"s" \\\n', '#ifdef P\np P\n#endif', '#include "e.h"', '\xef\xbb\xbfx'],
                                                 ['#include "b.h"\nend', '#define P 1\n#include "b.h"\nP Q', 'a\n#include "b.h"\nb\n#include "b.h"\nP Q F(1)', '#if 1\n#include "b.h"\n#else\nno\n#endif\nend P', '#if 0\n#include "b.h"\n#endif\nend Q', '#include "b.h"'])):
        out.append((f'file/{i}', {'a.c': t, 'b.h': b, 'e.h': ''}, (), ''))
    # an included file must not end in the middle of a conditional
    for i, b in enumerate(['#if 1\n', '#endif\n', '#else\n', '#if 1\nx\n#else\n', '#ifdef Q\n', '#elif 1\n']):
        for j, t in enumerate(['#include "b.h"\nend\n', '#if 1\n#include "b.h"\n#endif\n']):
            out.append((f'split/{i}/{j}', {'a.c': t, 'b.h': b}, (), ''))
    return out


def embeds(c):
    """#embed in the initialiser of a character array: own oracle"""
    datas = [b'\0', b'a', b'\xff\x80', bytes(range(256)), b'"\\\n', b'xyz' * 1000, b'']
    jobs = []
    for i, d in enumerate(datas):
        for p, s, e in itertools.product(['', ' prefix(1,)', ' __prefix__(7 ,)'], ['', ' suffix(,2)'], ['', ' if_empty(9)']):
            jobs.append((i, d, p, s, e))

    def run(j):
        i, d, p, s, e = j
        if i == 'local':
            src = '__declspec(dllexport) int run(void){ char l[] = {\n#embed "d.bin"\n}; return l[0]; }'
            r = c.e.compile({'a.c': src, 'd.bin': d}, 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll')
            if r.kind != 'exit' or r.code:
                c.violation('embed/local', f'#embed in a local array: {r}', {'a.c': src, 'd.bin': d})
            return
        exp = (({'': [], ' prefix(1,)': [1], ' __prefix__(7 ,)': [7]}[p]) + list(d) + ([2] if s else [])) if d else ([9] if e else [])
        if not exp:
            return
        emb = f'\n#embed "d.bin"{p}{s}{e}\n'
        src = f'typedef unsigned char u8; typedef unsigned long long u64;\nstatic u8 a[] = {{{emb}}}; static u8 b[] = {{3, 4,{emb}}}; static signed char c[] = {{{emb}, 5, 6}}; static u8 d[4096] = {{{emb}}};\nstruct s {{ int x; u8 y[4000]; int z; }}; static struct s f = {{1, {{{emb}}}, 2}};\nint line = __LINE__;\n'
        src += '__declspec(dllexport) u64 run(u8 *o, u64 n){ u64 k = 0;\n' + f'static u8 l[] = {{{emb}}}; static u8 m[4000] = {{1,{emb}, 2}};\n'
        parts = [('a', exp, 0), ('b', [3, 4] + exp, 0), ('c', exp + [5, 6], 0), ('d', exp, 4096), ('f.y', exp, 4000), ('l', exp, 0), ('m', [1] + exp + [2], 4000)]
        want = b''
        for n, v, size in parts:
            src += f'{{ u64 s = sizeof({n}); *(u64 *)(o + k) = s; k += 8; for(u64 i = 0; i < s; i++) o[k++] = {n}[i]; }}\n'
            size = size or len(v)
            want += hx.u64(size) + bytes(v) + b'\0' * (size - len(v))
        src += '*(u64 *)(o + k) = f.x + f.z * 256 + ((u64)line << 16); return k + 8; }\n'
        want += hx.u64(1 + 512 + ((src[:src.index('int line')].count('\n') + 1) << 16))
        key = f'embed/{i}{p}{s}{e}'.replace(' ', '')
        r = c.e.compile({'a.c': src, 'd.bin': d}, 'a.c /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll')
        c.count(1)
        c.seen(key)
        dll = r.files.get('a.dll')
        if r.kind != 'exit' or r.code or not dll:
            c.violation(key, f'#embed: {r}', {'a.c': src, 'd.bin': d})
            return
        x = c.e.run_dll(dll, bufsize=1 << 16)
        if x.kind != 'exit' or x.buf[:len(want)] != want:
            at = next((k for k in range(len(want)) if x.buf[k:k + 1] != want[k:k + 1]), None)
            c.violation(key, f'#embed: {x.kind} first difference at {at} of {len(want)}', {'a.c': src, 'd.bin': d})
    c.e.map(run, jobs + [('local', b'x', '', '', '')])


PRE = ['\n', ' \\\n', '/* \n */', '/* x */ ', '// c\n', '\\\n\n', 'x ', '/* \n\n\n */', '#define Q 1\n', '#if 1\n#endif\n', '#if 0\n\n x\n#endif\n', '"s" ', 'E@ ', 'F@(1) ', 'F@(\n1) ', '#define R(x) \\\n x\n', '// c \\\n d\n', 'LL@ ', '#include "two.h"\n', '\t', '\f'[:0] + ' ', "'\\''", '#undef Q\n']


def positions(c):
    n = 3 if c.thorough else 2
    items = []
    for i, l in enumerate(lists(PRE, 1, n)):
        t = ''
        for x in l:
            if x.startswith('#') and t and not t.endswith('\n'):
                t += '\n'
            if x.startswith('#') and t.endswith('\\\n'):
                t += '\n'
            t += x
        if '\\\nLL' in t:
            continue    # the line of a macro name at the start of a spliced line: clang is of two minds
        # markers: the line of the use, also through macros and in directives
        items.append((f'line/{i}', '#define E@\n#define LL@ __LINE__\n#define F@(x) x\n#define W@(x) (x __LINE__)\nm ' .replace('m ', '') + t + '__LINE__ LL@ F@(__LINE__) W@(LL@)'))
    return items


ERRS = [('#error boom', 0, 'hash'), ('int f_(void){ return undefd_; }', 0, ''), ('int f_(void){\n int x;\n return undefd_;\n}', 2, ''), ('int x_ = undefd_;', 0, ''), ('int f_(void){ return 1 + ; }', 0, ''), ('int f_(void){ return M_UND; }', 0, ''), ('#if 1 +\n#endif', 0, 'hash'), ('#include "none.h"', 0, 'hash'),
        ('int f_(void){ int a; return a\n ->b; }', 1, ''), ('int f_(void){\n\n 5 = 6;\n}', 2, ''), ('struct s_ { int a; int b; } f_(void){ struct s_ s;\n s.c = 4; return s; }', 1, ''), ('_Static_assert(0, "x");', 0, ''), ('int f_(int a){\n switch(a){\n case 1:;\n case 1:;\n }\n return a; }', 3, ''), ('int f_(void){ goto l_; }', 0, ''), ('#else', 0, 'hash'), ('#elif 1', 0, 'hash'), ('#endif', 0, 'hash'), ('#if 1\n', 0, 'hash'),
        ('#define F_(x\n', 0, 'hash'), ('int f_(void){ return CALL_(1,\n2,3); }', 0, ''), ('int f_(void){\n break; }', 1, ''), ('unknown_type_ f_(void){ return 0; }', 0, ''), ('int f_(void){ int i = \n (struct { int a; }){1};\n return i; }', None, '')]


def diagnostics(c):
    """the file and line of a diagnostic: every prefix sequence x error kind x {main file, header, header of a header}; the line is counted in the source"""
    al = ['\n', ' \\\n', '/* \n */', '// c\n', '/* x */ ', '#define Q 1\n', '#if 0\n x \n#endif\n', 'int v@;\n', 'E_ \n', '#define R(x) \\\n x\n', '#include "two.h"\n', 'int g@(int a){\n return F_ONE(\n a); }\n', '// c \\\n d\n', '\r\n']
    jobs = []
    for l in lists(al, 0, 2 if not c.thorough else 3):
        for ei, (err, off, kind) in enumerate(ERRS):
            if off is None:
                continue
            if len(l) == 2 and not c.thorough and (ei % 4 != (al.index(l[0]) + al.index(l[1])) % 4):
                continue
            if len(l) == 3 and ei % 6 != sum(map(al.index, l)) % 6:
                continue
            for place in range(3):
                jobs.append((l, ei, err, off, kind, place))

    def run(j):
        l, ei, err, off, kind, place = j
        t = '#define E_\n#define M_UND 1 + undefd_\n#define F_ONE(x) x\n#define CALL_(a) a\n'
        for i, x in enumerate(l):
            if x.startswith('#'):
                if t.endswith('\\\n'):
                    t += '\n'
                if not t.endswith('\n'):
                    t += '\n'
            t += x.replace('@', str(i))
        if kind == 'hash' and not t.endswith('\n') or t.endswith('\\\n'):
            t += '\n'
        line = t.count('\n') + 1 + off
        t += err + '\n'
        files = {'two.h': '\n\n', 's/two.h': '\n\n'}
        name = ['a.c', 'h.h', 's/k.h'][place]
        files[name] = t
        if place == 1:
            files['a.c'] = '\n#include "h.h"\n'
        if place == 2:
            files['a.c'] = '\n\n\n#include "h.h"\n'
            files['h.h'] = '#include "s/k.h"\n\n'
        r = c.e.compile(files, 'a.c /dll /no_entry /no_stdlib /no_debug /quiet')
        m = re.findall(r'^(.*)\((\d+),\d+\): (?:Error|Syntax error)', r.out.decode('latin1'), flags=re.M)
        c.count(1)
        key = f'diag/{ei}/{place}/' + ','.join(str(al.index(x)) for x in l)
        if not (r.kind == 'exit' and r.code == 1) or not m or m[0] != ('C:/w/' + name, str(line)):
            c.violation(key, f'expected an error at {name}({line}), got {m} {r}', files)
        c.seen(key)
    c.e.map(run, jobs)


def names(c):
    """The name of a function-like macro at the end of a line: the next line may hold its arguments, unless the line is a directive or a directive follows."""
    t = Tree(c)
    pre = '#define F(x) <x>\n#define O F\n#define P O\n#define H(x) x\n#define E\n'
    ends = ['F', 'O', 'P', 'H(F)', 'H(O)', 'E F', 'F E', 'F /* c */', 'F // c', '(F)', 'F F', 'H(1) F', 'H(F) H', 'F \\\n']
    conds = ['F', 'O', 'P', 'H(F)', '0 + F', '!F', '1 || F', 'defined(F) && F', 'F /* c */', 'F // c', 'H(0) + F', '1 && H(F)', 'defined F', '!defined O || F', 'H']
    nexts = ['(1)', '', '/* */ (1)', '#define Q 1', '# define Q (2)', '#if 1\nyes\n#else\nno\n#endif', '#if 0\nno\n#endif', '#', '#undef F\n(1)', '#include "h.h"', '(a)(b)', 'F(2)', '\n(1)', '\n#define Q 3', '/* \n */ #define Q 4', '#define F 7', '# # #', 'x # y']
    items = []
    for i, e in enumerate(ends):
        for j, n in enumerate(nexts):
            if n.startswith('#define F') or n == '# # #':
                continue
            items.append((f'names/text/{i}.{j}', f'{pre}{e}\n{n}\nend Q F\n'))
            items.append((f'names/text-eof/{i}.{j}', f'{pre}start {e}\n{n}'))
            items.append((f'names/last/{i}.{j}', f'{pre}{n}\nstart {e}'))
            items.append((f'names/define/{i}.{j}', f'{pre}#define D {e}\n{n}\nend D (8) Q\n'))
    for i, e in enumerate(conds):
        for j, n in enumerate(nexts):
            if n in ('#undef F\n(1)', '#define F 7', '# # #', '#'):
                continue
            items.append((f'names/if/{i}.{j}', f'{pre}#if {e}\n{n}\n#else\nelse\n#endif\nend Q\n'))
            items.append((f'names/elif/{i}.{j}', f'{pre}#if 0\nnot\n#elif {e}\n{n}\n#elif 1\n{n}\n#endif\nend Q\n'))
    for e in ('"h.h"', 'INC', 'G("h.h")', 'OI', 'INC /* c */', 'INC // c'):
        for j, n in enumerate(nexts[:6]):
            items.append((f'names/include/{e}/{j}', f'{pre}#define INC "h.h"\n#define G(x) x\n#define OI G("h.h")\n#include {e}\n{n}\nend Q\n'))
    c.e.map(lambda x: t.item(x[0], {'a.c': x[1], 'h.h': 'header\n'}), items)


def body(c):
    names(c)
    items, ill, n = skeletons(c)
    items += expressions(c)
    deep = [x for x in items if x[0].startswith('deep')]
    items = [x for x in items if not x[0].startswith('deep')]
    pp = PP(c)
    pp.run(items)
    pp.batch = 4
    pp.run(deep)
    # unbalanced
    def bad(l):
        src = '\n'.join(f'T{i}\n{x}' for i, x in enumerate(l)) + '\nend\n'
        r = c.e.compile({'a.c': src}, 'a.c /P /Fi out.i /quiet /no_predefines')
        c.count(1)
        k = 'unbalanced/' + '/'.join(l).replace(' ', '_')
        c.seen(k)
        if not (r.kind == 'exit' and r.code == 1 and b'Error' in r.out):
            c.violation(k, f'not rejected: {r}', {'a.c': src})
    c.e.map(bad, ill)
    t = Tree(c)
    g = include_graphs(c)
    l = lookups(c)
    c.e.map(lambda x: t.item(*x), g + l)
    embeds(c)
    pos = positions(c)

    def lines(b):
        # each item in a file of its own; all files in one run
        res = {}
        files = {f'p{i}.h': f'ITEM_{i}_ ;\n' + x[1].replace('@', f'_{i}_') + '\n' for i, x in enumerate(b)}
        files['two.h'] = 'two\ntwo __LINE__\n'
        files['a.c'] = ''.join(f'#include "p{i}.h"\n' for i in range(len(b))) + 'ITEM_999999_ ;\n'
        for nl in ('', '\r\n'):
            f = {k: v.replace('\n', nl) if nl else v for k, v in files.items()}
            rc, out, err = t.clang(f)
            r, h = t.hlc(f)
            if rc:
                raise EngineError('reference rejects positions: ' + err[:500])
            if r.kind != 'exit' or r.code:
                if len(b) > 1:
                    for x in b:
                        lines([x])
                    return
                c.violation(b[0][0], f'valid input rejected: {r}', f)
                return
            e, g = sections(out), sections(h)
            for i, x in enumerate(b):
                c.count(1)
                c.seen(x[0])
                if toks(e[i]) != toks(g.get(i, '<missing>')):
                    c.violation(x[0], f'token sequences differ {"(crlf)" if nl else ""}\n{x[1]}\n got      {" ".join(toks(g.get(i, "")))}\n expected {" ".join(toks(e[i]))}', {'a.c': f[f'p{i}.h']})
    c.e.map(lines, [pos[i:i + 50] for i in range(0, len(pos), 50)])
    diagnostics(c)
    c.sample({'nest': items[500][1]})
    c.sample({'graph': g[len(g) // 2][0], 'files': g[len(g) // 2][1]})
    c.sample({'lookup': l[100][0]})
    c.cov['exhaustive'] = True
    c.cov['conditional_length_bound'] = n
    c.cov['include_graphs'] = len(g)
    c.cov['rule'] = 'every sequence of conditional directives up to the length bound (balanced ones compared with clang -E, unbalanced ones must be rejected), every include graph over three headers with every guard kind, every subset of places of an include file x include form, every prefix sequence in front of __LINE__ and of an error; token sequences compared with clang-18 -E, error positions with the line counted in the source. Non-trivial: distinct item with a non-empty expected result.'
    c.assumptions += ['clang-18 -E -std=c11 defines the expected token sequence', '__FILE__ is the file name without its directory (as hlc documents in the code)']


if __name__ == '__main__':
    main('C11', 'exploration', body, need_ref=False)
