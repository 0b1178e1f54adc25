from common import *
import itertools, subprocess, tempfile

TOK = re.compile(r'''(?:u8|u|U|L)?"(?:[^"\\\n]|\\.)*"|(?:u8|u|U|L)?'(?:[^'\\\n]|\\.)*'|\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.]|'(?=[0-9A-Za-z_]))*|[A-Za-z_$][A-Za-z_0-9$]*|\.\.\.|<<=|>>=|##|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[^\s]''')


BADNUM = re.compile(r'^(?=\.?\d)(?!(?:0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?:[uU]?(?:ll|LL|l|L)?|(?:ll|LL|l|L)[uU]?)$)(?!(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?[fFlL]?$|\d+[eE][+-]?\d+[fFlL]?$)')


def toks(text):
    return TOK.findall(text)


def sections(text):
    """split at the markers ITEM_<n>_ ; -> {n: text}"""
    out = {}
    parts = re.split(r'\bITEM_(\d+)_\s*;', text)
    for i in range(1, len(parts), 2):
        out[int(parts[i])] = parts[i + 1]
    return out


class PP:
    """text items: {@} is replaced by the number of the item in its batch"""
    def __init__(self, c, batch=400):
        self.c = c
        self.batch = batch
        self.dropped = 0

    def clang(self, src, args=()):
        d = tempfile.mkdtemp(dir=self.c.build.dir)
        p = os.path.join(d, 'a.c')
        with open(p, 'w') as f:
            f.write(src)
        r = subprocess.run(['clang-18', '-E', '-P', '-std=c11', '-Weverything', '-Wno-unused-macros', '-Wno-newline-eof', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics', *args, p], capture_output=True, text=True, errors='replace', encoding='latin1')
        os.unlink(p)
        os.rmdir(d)
        return r.stdout, r.stderr

    def source(self, items):
        s = []
        for i, (k, t) in items:
            s.append(f'ITEM_{i}_ ;\n' + t.replace('@', f'_{i}_') + '\n')
        return ''.join(s) + 'ITEM_999999_ ;\n'

    DROP = ('error:', '-Wgnu', '-Wpedantic', '-Wexpansion-to-defined', '-Wmicrosoft', '-Winvalid-pp-token', '-Wc2', '-Wpre-c2', '-Wreserved', '-Wbuiltin-macro', '-Wdollar', '-Wembedded', '-Wc++')

    def run(self, items, opts='', copts=()):
        """items: (key, text)"""
        bs = [items[i:i + self.batch] for i in range(0, len(items), self.batch)]
        self.c.e.map(lambda b: self.go(b, opts, copts), bs)

    def go(self, b, opts, copts):
        if len(self.c.violations) > 40 and not os.environ.get('HX_KEYS'):
            return
        keep = list(enumerate(b))
        for _ in range(60):
            src = self.source(keep)
            out, err = self.clang(src, copts)
            starts = [(ln, int(m.group(1))) for ln, m in enumerate((re.match(r'ITEM_(\d+)_ ;', l) for l in src.split('\n')), 1) if m]
            bad = {}
            for l in err.split('\n'):
                m = re.match(r'[^:]*:(\d+):\d+: (.*)', l)
                if not m or not any(d in m.group(2) for d in self.DROP):
                    continue
                n = [(s, k) for s, k in starts if s <= int(m.group(1))]
                if not n:
                    continue
                k = n[-1][1]
                if '-Wembedded-directive' in m.group(2) and n[-1][0] + 1 == int(m.group(1)) and len(n) > 1:
                    k = n[-2][1]    # an unterminated invocation of the previous item swallowed this one
                    bad = {k: m.group(2)}
                    break
                bad.setdefault(k, m.group(2))
                if 'unterminated function-like' in m.group(2):
                    bad = {k: m.group(2)}
                    break
            if not bad:
                break
            self.c.count(0, items_dropped_as_ill_formed=len(bad))
            for n in bad:
                if os.environ.get('HX_DROP'):
                    sys.stderr.write(f'DROP {b[n][0]} {bad[n]}\n')
            keep = [x for x in keep if x[0] not in bad]
        else:
            raise EngineError('reference rejects too many items')
        exp = {k: toks(v) for k, v in sections(out).items()}
        self.hlc(keep, exp, opts)

    def hlc(self, num, exp, opts):
        if not num:
            return
        src = self.source(num)
        r = self.c.e.compile({'a.c': src}, 'a.c /P /Fi out.i /quiet /no_predefines ' + opts, timeout=60)
        t = r.files.get('out.i')
        if r.kind != 'exit' or r.code or t is None:
            if len(num) > 1:
                h = len(num) // 2
                self.hlc(num[:h], exp, opts)
                self.hlc(num[h:], exp, opts)
                return
            self.c.count(1)
            self.c.violation(num[0][1][0], f'valid input rejected: {r}\n{num[0][1][1]}\n expected {" ".join(exp[num[0][0]])}', {'a.c': src})
            return
        t = re.sub(r'^#line .*$|^#pragma comment.*$', '', t.decode('latin1'), flags=re.M)
        got = sections(t)
        if 999999 not in got and len(num) > 1:
            h = len(num) // 2
            self.hlc(num[:h], exp, opts)
            self.hlc(num[h:], exp, opts)
            return
        self.c.count(len(num))
        for i, (k, txt) in num:
            e = exp[i]
            g = toks(got.get(i, '<missing>'))
            if e:
                self.c.seen(k)
            if e != g and len(num) > 1:
                out, err = self.clang(self.source([(i, (k, txt))]))
                self.hlc([(i, (k, txt))], {i: toks(sections(out)[i])}, opts)    # alone (positions and neighbours differ)
                continue
            if e != g and not k.startswith(('str', 'wsexp', 'misc')):
                # white space of replacement lists is not preserved by hlc (known finding, family wsexp), pp-numbers that are no number may be several tokens
                sp = lambda x: re.sub(r' +', '', ''.join(x))
                if sp(e) == sp(g) and (any(x[-1] in '\'"' and ' ' in x for x in e) or any(BADNUM.match(x) for x in e)):
                    continue
            if e != g:
                if True:
                    self.c.violation(k, f'token sequences differ\n{txt}\n got      {" ".join(g)}\n expected {" ".join(e)}', {'a.c': src, 'cmdline.txt': 'hlc a.c /P /Fi out.i /no_predefines ' + opts})


def lists(al, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(al, repeat=n)


def gen(th):
    I = []

    def fam(name, it):
        for i, t in enumerate(it):
            if ', ##' in t:
                continue    # hlc drops the comma for every empty right operand (documented extension)
            I.append((f'{name}/{i}', t))

    # 1. two and three object-like macros referring to each other
    al = ['A@', 'B@', 'x', '+']
    L2 = [' '.join(l) for l in lists(al, 0, 2)]
    fam('obj2', (f'#define A@ {a}\n#define B@ {b}\nA@ ; B@ A@' for a in L2 for b in L2))
    al3 = ['A@', 'B@', 'C@', 'x']
    L3 = [' '.join(l) for l in lists(al3, 1 if not th else 0, 2)]
    fam('obj3', (f'#define A@ {a}\n#define B@ {b}\n#define C@ {c}\nA@ ; B@ ; C@' for a in L3 for b in L3 for c in L3))
    # 2. function-like macros: all replacement lists of one macro x invocation forms
    inv = ['F@(a)', 'F@()', 'F@ (a)', 'F@\n(a b)', 'F@', 'F@(F@(a))', 'F@(F@)(a)', 'F@((a,b))', 'F@(F@)', 'F@(A@)', 'F@(F@(F@(A@)))', 'F@(a)(b)(c)', 'A@(a)', '(F@)(a)', 'F@(a F@)(b)', 'F@( ( a ) )F@ /**/ (b)', 'F@(\na\n)\nb', 'A@ (F@ (A@))']
    al = ['x', 'F@', '(', ')', 'A@', '#x', '##', 'b'] + (['+', ','] if th else [])
    rl = []
    for l in lists(al, 0, 3 if not th else 4):
        d = 0
        if l and (l[0] == '##' or l[-1] == '##' or any(a == b == '##' for a, b in zip(l, l[1:]))):
            continue
        rl.append(' '.join(l))
    fam('fun1', (f'#define A@ F@\n#define F@(x) {r}\n{" ; ".join(inv)}' for r in rl if r.count('(') == r.count(')')))
    fam('fun1u', (f'#define A@ F@\n#define F@(x) {r}\n{v}' for r in rl if r.count('(') != r.count(')') for v in [v + ' )' * (8 * max(0, r.count('(') - r.count(')'))) for v in inv]))
    # 3. two function-like macros of two and one parameters
    al = ['x', 'y', 'G@(x)', 'G@', '(y)', 'F@(y,x)', '#y', '##', ',']
    rf = [' '.join(l) for l in lists(al, 1, 2 if not th else 3) if l[0] != '##' and l[-1] != '##']
    rf3 = [' '.join(l) for l in itertools.product(['x', 'y', 'a'], ['##'], ['x', 'y', 'b'])]
    rg = ['x', 'F@(x, x)', 'F@', 'x x', 'x ## x', '#x', 'G@(x)', '', 'F@ (x']
    pad = lambda g: ') ) ) )' if '(x' in g and ')' not in g else ''
    inv2 = ['F@(a, b)', 'F@(,)', 'F@(F@(a,b),c)', 'F@(G@(a), G@(b))', 'F@((a,b),(c))', 'F@(G@, G@)', 'G@(F@(a,b))', 'G@(G@(a))', 'G@(F@)(a,b)', 'F@(a)b,c)', 'F@ ( a , b ) ( c )', 'F@(a,)', 'F@(,b)', 'F@( a b , c d )']
    fam('fun2', (f'#define F@(x, y) {f}\n#define G@(x) {g}\n{v} {pad(g)}' for f in rf + rf3 for g in rg for v in inv2))
    # 4. variadic
    al = ['x', '__VA_ARGS__', ',', '#__VA_ARGS__', '##', '(__VA_ARGS__)', 'G@(__VA_ARGS__)']
    rv = [' '.join(l) for l in lists(al, 1, 2 if not th else 3) if l[0] != '##' and l[-1] != '##'] + ['x ## __VA_ARGS__', '__VA_ARGS__ ## x', 'x ## x ## __VA_ARGS__', '[ __VA_ARGS__ ] __VA_ARGS__', '#x #__VA_ARGS__', 'G@(x, __VA_ARGS__)', 'F@(__VA_ARGS__)']
    inv3 = ['F@(a,b)', 'F@(a,b,c)', 'F@(a,)', 'F@(a,,)', 'F@(,)', 'F@(a, b , c )', 'F@((a,b),(c,d))', 'F@(a, F@(b, c))', 'F@(F@(a,b),c)', 'F@(a, G@(b), G@(c))', 'F@(a, G@)(q)', 'F@( a ,\nb,\n c )']
    fam('var', (f'#define G@(...) g __VA_ARGS__\n#define F@(x, ...) {r}\n{v}' for r in rv for v in inv3))
    fam('var0', (f'#define F@(...) {r}\n{v}' for r in ['__VA_ARGS__', '#__VA_ARGS__', 'a ## __VA_ARGS__', '__VA_ARGS__ ## b', 'f(__VA_ARGS__)', '__VA_ARGS__ , __VA_ARGS__', '#__VA_ARGS__ __VA_ARGS__', ''] for v in ['F@()', 'F@(a)', 'F@(a,b)', 'F@(,)', 'F@( a , b )', 'F@((a,b),c)', 'F@(F@(a),b)', 'F@ ( , , )', 'F@("s,t",\',\')']))
    # 5. stringification
    al = ['a', '+', '"s"', "'c'", '"\\n"', "'\\''", '"\\""', ' ', '/**/', '\n', '(b,c)', '1.0e+5', '"a\\\\"', 'F@', 'O@', '<', '>', '-', '#', '""', "L'x'", '@\\\n'] 
    al = [a for a in al if a != '@\\\n'] + (['.5', '...', '\t'] if th else [])
    fam('str', ('#define O@ obj\n#define F@(x) #x\n#define G@(x) F@(x)\n' + 'F@({0}) ; G@({0})'.format(''.join(l)) for l in lists(al, 1, 2 if not th else 3) if "5'" not in ''.join(l) and '5...' not in ''.join(l)))
    fam('strsp', ('#define F@(x) #x\nF@(' + s1 + a + s2 + b + s3 + ')' for a in ['a', '+', '"s"', '('] for b in ['b', '"t"', ')'] for s1 in ['', ' ', '\n', '/**/', ' \t '] for s2 in ['', ' ', '  ', '\n', '\t', '/**/', ' /*c*/ ', '// l\n', '\n\n', ' \\\n '] for s3 in ['', ' ', '\n', '/* */'] if not (a == '(') ^ (b == ')')))
    fam('strpos', (f'#define F@(x,y) {a}#{b}x{c}#y{d}\nF@({p},{q})' for a in ['', 'a', '"'[:0], '(', '/**/'] for b in ['', ' ', '\t'] for c in ['', ' ', ' + ', '/**/'] for d in ['', 'b', ' y', ' x'] for p, q in [('a', 'b'), ('', ''), (' a b ', '+'), ('F@(c,d)', '(e,f)')]))
    # 6. pasting: all pairs of tokens, as literal tokens, as arguments, mixed, with chains
    pal = ['a', 'b1', '1', '.', '+', '-', '=', '<', '>', '&', '|', '#', '%', '*', '!', '^', '/', ':', 'x', 'e', 'L', 'u', 'u8', '"s"', "'c'", '0x', '1e', '.5', 'A@', 'F@', '<<', '->', '++', '==', '>>', '&&', 'ull', '', '5.', '0', 'p', '_', 'define', 'while']
    fam('paste', (f'#define A@ aa\n#define P@(x,y) x ## y\n#define F@(x) f x\n#define Q@ {p} ## {q}\n#define R@(x) x ## {q}\n#define S@(y) {p}##y\nP@({p},{q})' + (f' ; Q@ ; R@({p}) ; S@({q})' if p and q else '') for p in pal for q in pal))
    fam('pastel', (f'#define A@ aa\n#define P@(x,y) [x ## y]\nP@({p} {q}, {r} {s})' for p in ['', 'a', 'A@', '+'] for q in ['a', 'A@', '1', '-'] for r in ['1', 'A@', 'b', '-'] for s in ['', 'A@', 'c']))
    fam('paste3', (f'#define A@ aa\n#define ab@ hit\n#define P@(x,y,z) {f}\nP@({p},{q},{r})' for f in ['x ## y ## z', 'x##y z', 'x y##z', 'x ## y ## z ## x', '#x ## #y', 'x ## @', 'a ## b ## x', 'a ## x ## @', 'x ## x', '[x##y##z]', 'q x##y r', 'q x##y##z r', 'q z ## #x r', 'x ## #y z', 'q(x##y) ## z', 'q y ## z ## x x ## y ## z', 'L ## #x y', 'L ## #x', 'x ## b@ y', '(x##y)(z)'] for p in ['a', '', 'A@', 'a b', '1'] for q in ['b', '', '2', 'A@', 'b c'] for r in ['', 'c', '3', 'A@']))
    # 7. definitions: sequences of define / undef / use
    al = ['#define A@ 1', '#define A@ a ## 2', '#define A@ a ## 3', '#define A@(x) x 3', '#undef A@', 'A@ A@(4)', '#ifdef A@\nyes\n#else\nno\n#endif', '#define B@ A@ B@', 'B@', '#undef B@', '#define A@', '#if defined(A@) && defined B@\nboth\n#endif']
    fam('seq', ('\n'.join(l) for l in lists(al, 2, 3 if not th else 4) if ok_seq(l)))
    # 8. definition syntax
    sp = ['', ' ', '\t', '/**/', ' /* c */ ', ' \\\n', ' \\\n\\\n ', '/*\n*/']
    fam('dsp', (f'{a}#{b}define{c}A@{d}v{e}\nA@' for a in sp for b in sp for c in sp[1:] for d in sp[1:] for e in ['', ' ', '// c', '/* c */']))
    fam('dspf', (f'#define F@({a}x{b},{c}y{d}){e}x{a}y\nF@{a}({b}1{c},{d}2{e})' for a in sp for b in sp[:5] for c in sp[:5] for d in sp[:5] for e in sp))
    fam('dparen', (f'#define F@{a}(x){b}(x)\nF@(1) ; F@ (2)' for a in ['', ' ', '\t', '/**/', ' \\\n', ' \\\n '] for b in ['', ' ', '/**/', ' \\\n']))
    fam('params', (f'#define F@({", ".join(ps[:n])}) {body}\nF@({", ".join(str(k) for k in range(n))})' for n in range(0, 40) for ps in [[f'p{k}' for k in range(40)], [f'a{"a" * k}' for k in range(40)]] for body in ['[' + ' '.join(reversed(ps[:n])) + ']', '[' + '+'.join('#' + p for p in ps[:n]) + ']', '[' + '##'.join(ps[:n]) + ']', '[' + ' '.join(p + '##' + p + ' ' + p for p in ps[:n]) + ']']))
    # 9. keywords, predefined names, arguments with unbalanced brackets, commas in strings
    fam('kw', (f'#define {k} 17\n{k} x{k}\n#undef {k}\n{k}' for k in ['if', 'int', 'while', 'sizeof', 'return', 'struct', '_Bool', 'inline', 'asm_', 'include', 'pragma', 'elif', 'L', 'u8', 'e1', 'x_', '_x', 'X$'[:1]]))
    fam('arg', (f'#define F@(x, y) <x|y>\nF@({p},{q})' for p in ['[a', 'a]', '{', '}', '"a,b"', "','", '(a,b)', '((,))', '[a(,)b]', '/*,*/', 'a /* ) */', '"("', "')'", 'a // ),\n', '{a(,', ''] for q in ['b', '[', '"\\","', '(),()', '({)', '', '#', '\\\n']))
    # 10. depth and width ladders
    for n in [1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257] + ([300, 500] if th else []):
        ch = '\n'.join(f'#define C@_{k} C@_{k + 1} {k}' for k in range(n)) + f'\n#define C@_{n} end\n'
        I.append((f'deep/obj/{n}', ch + 'C@_0'))
        ch = '\n'.join(f'#define C@_{k}(x) C@_{k + 1}(x {k})' for k in range(n)) + f'\n#define C@_{n}(x) [x]\n'
        I.append((f'deep/fun/{n}', ch + 'C@_0(a)'))
        if n <= 129:
            I.append((f'deep/args/{n}', '#define F@(x) <x>\n' + 'F@(' * n + 'a' + ')' * n))
        I.append((f'deep/paren/{n}', '#define F@(x) <x>\nF@(' + '(' * n + 'a,b' + ')' * n + ')'))
        I.append((f'deep/tokens/{n}', '#define F@(x) ' + 'x ' * n + '\n#define O@ ' + 'o + ' * n + '\nF@(1) ; O@ ; F@(O@)' if n < 130 else '#define F@(x) ' + 'x ' * n + '\nF@(1)'))
        I.append((f'deep/str/{n}', '#define F@(x) #x\nF@(' + 'ab + ' * n + ')'))
        I.append((f'deep/va/{n}', '#define F@(x, ...) x | __VA_ARGS__ | #__VA_ARGS__\nF@(' + ', '.join(str(k) for k in range(n + 1)) + ')'))
        I.append((f'deep/paste/{n}', '#define F@(x) ' + 'x' + '##x' * n + '\nF@(ab)'))
        I.append((f'deep/names/{n}', '\n'.join(f'#define N@_{k}_{"q" * (k % 7)} {k * k}' for k in range(n)) + '\n' + ' '.join(f'N@_{k}_{"q" * (k % 7)}' for k in range(n)) + '\n' + '\n'.join(f'#undef N@_{k}_{"q" * (k % 7)}' for k in range(0, n, 2)) + '\n' + ' '.join(f'N@_{k}_{"q" * (k % 7)}' for k in range(n))))
        I.append((f'deep/ident/{n}', f'#define {"i" * n}@ 1\n{"i" * n}@ {"i" * (n + 1)}@'))
    # 11. idioms
    idioms = [
        '#define EMPTY@\n#define DEFER@(id) id EMPTY@()\n#define A@() 123\nDEFER@(A@)()\n#define EX@(...) __VA_ARGS__\nEX@(DEFER@(A@)())',
        '#define CAT@(a, ...) a ## __VA_ARGS__\n#define IIF@(c) CAT@(IIF@_, c)\n#define IIF@_0(t, ...) __VA_ARGS__\n#define IIF@_1(t, ...) t\nIIF@(1)(a, b) IIF@(0)(a, b, c)',
        '#define LIST@ X@(a) X@(b) X@(c)\n#define X@(n) n = #n,\nLIST@\n#undef X@\n#define X@(n) case n:\nLIST@\n#undef X@\nLIST@',
        '#define x@ 3\n#define f@(a) f@(x@ * (a))\n#undef x@\n#define x@ 2\n#define g@ f@\n#define z@ z@[0]\n#define h@ g@(~\n#define m@(a) a(w)\n#define w@ 0,1\n#define t@(a) a\n#define p@() int\n#define q@(x) x\n#define r@(x,y) x ## y\n#define str@(x) # x\nf@(y+1) + f@(f@(z@)) % t@(t@(g@)(0) + t@)(1);\ng@(x@+(3,4)-w@) | h@ 5) & m@\n(f@)^m@(m@);\np@() i[q@()] = { q@(1), r@(2,3), r@(4,), r@(,5), r@(,) };\nchar c[2][6] = { str@(hello), str@() };',
        '#define str@(s) # s\n#define xstr@(s) str@(s)\n#define debug@(s, t) printf("x" # s "= %d, x" # t "= %s", x ## s, x ## t)\n#define INCFILE@(n) vers ## n\n#define glue@(a, b) a ## b\n#define xglue@(a, b) glue@(a, b)\n#define HIGHLOW@ "hello"\n#define LOW@ LOW ", world"\ndebug@(1, 2);\nfputs(str@(strncmp("abc\\0d", "abc", \'\\4\') == 0) str@(: n), s);\nxstr@(INCFILE@(2).h)\nglue@(HIGH, LOW@);\nxglue@(HIGH, LOW@)',
        '#define hash_hash@ # ## #\n#define mkstr@(a) # a\n#define in_between@(a) mkstr@(a)\n#define join@(c, d) in_between@(c hash_hash@ d)\nchar p[] = join@(x, y);',
        '#define t@(x,y,z) x ## y ## z\nint j[] = { t@(1,2,3), t@(,4,5), t@(6,,7), t@(8,9,), t@(10,,), t@(,11,), t@(,,12), t@(,,) };',
        '#define OBJ@ (1-1)\n#define OBJ@ /* w */ (1-1) /* o */\n#define FUNC@(a) ( a )\n#define FUNC@( a )( /* n */ \\\n a /* o */ \\\n )\nOBJ@ FUNC@(2)',
        '#define debug@(...) fprintf(stderr, __VA_ARGS__)\n#define showlist@(...) puts(#__VA_ARGS__)\n#define report@(test, ...) ((test)?puts(#test): printf(__VA_ARGS__))\ndebug@("Flag");\ndebug@("X = %d\\n", x);\nshowlist@(The first, second, and third items.);\nreport@(x>y, "x is %d but y is %d", x, y);',
        '#define A@() B@\n#define B@() C@\n#define C@() A@\nA@()()()() A@()()()()()',
        '#define f@(a) a*g@\n#define g@(a) f@(a)\nf@(2)(9)',
        '#define foo@() bar\nfoo@()\nfoo@\n()\nfoo@ EMPTY\n(',
        '#define a@ a@ b@\n#define b@ b@ c@\n#define c@ c@ a@\na@ ; b@ ; c@',
        '#define NIL@(x) x\n#define G_0@(a) NIL@(G_1@)(a)\n#define G_1@(a) NIL@(G_0@)(a)\nG_0@(42)',
        '#define AB@ BA@\n#define BA@ AB@\nAB@ BA@',
        '#define E@(x) x\n#define C2@(a,b) a##b\n#define C1@(a,b) C2@(a,b)\nC1@(x, __LINE__) C2@(x, __LINE__) E@(__LINE__)',
        '#define SELF@ SELF@ + 1\n#define K@(x) x\nK@(SELF@) K@(K@(SELF@)) SELF@',
        '#define mem@ a.mem@\n#define d1@(m) m\n#define d2@(m) d1@(m) d1@(d1@(m))\nd1@(mem@) d2@(mem@)',
        '#define one@(x) x\n#define two@(x) one@(x) one@ (one@(x))\n#define three@ two@\nthree@(two@(one@)(a))',
        '#define COMMA@ ,\n#define P2@(x, y) <x|y>\n#define P1@(x) P2@(x, e)\n#define V@(...) P2@(__VA_ARGS__)\nV@(a COMMA@ b, c' + ')\n'.replace(', c', '') if False else '#define COMMA@ ,\n#define P2@(x, y) <x|y>\n#define V@(...) P2@(__VA_ARGS__)\nV@(a COMMA@ b)',
        '#define LP@ (\n#define RP@ )\n#define F@(x) <x>\nF@ LP@ a RP@\n#define G@(x) x\nG@(F@ LP@ a RP@)',
        '#define STR@(x) #x\n#define X@STR(x) STR@(x)\nX@STR(__FILE__)[0] STR@(__FILE__) X@STR(__LINE__)'.replace('X@STR(__FILE__)[0] ', ''),
    ]
    # white space inside of replacement lists is dropped, which shows when the expansion is stringified (known findings)
    for i, t in enumerate(['#define V@ a + b\n', '#define V@ a b [ c\n', '#define U@(x) x ( x )\n#define V@ U@(1)\n', '#define U@(x) x #x\n#define V@ U@(1)\n', '#define V@ f (x) , y\n', '#define V@ a/**/+/**/b\n']):
        I.append((f'wsexp/{i}', '#define S@(...) #__VA_ARGS__\n#define X@(...) S@(__VA_ARGS__)\n' + t + 'X@(V@)'))
    I.append(('misc/hash-object', '#define hh@ # ## #\n#define S@(x) #x\n#define X@(x) S@(x)\nX@(hh@)'))
    I.append(('misc/ppnumber', '#define O@ obj\n#define F@(x) #x\n#define G@(x) F@(x)\nG@(.5...O@)'))
    I.append(('misc/backslash', '#define S@(x) #x\nS@(\\a) S@(a \\ b)'))
    for i, t in enumerate(idioms):
        I.append((f'idiom/{i}', t))
    return I


def ok_seq(l):
    """something must be used (redefinitions that differ are accepted with a warning, the last one counts)"""
    a = b = None
    used = False
    for x in l:
        if x.startswith('#define A@'):
            a = x
        elif x == '#undef A@':
            a = None
        elif not x.startswith(('#define', '#undef')):
            used = True
    return used


def bare(c):
    """macros defined on the command line"""
    opts = [('/D', 'X', '1'), ('/D', 'X=2', '2'), ('/D', 'X=', ''), ('/D', 'X="a+b"', None)]
    for form in ('/D {}', '/D{}', '-D{}', '-D {}'):
        for d, e in [('X', ['1']), ('X=2', ['2']), ('X=y', ['y']), ('X=0x10u', ['0x10u']), ('X=', [])]:
            for more in ('', ' /D Y=3', ' /DY=X'):
                o = form.format(d) + more
                r = c.e.compile({'a.c': 'ITEM_0_ ; X\n#ifdef X\nyes\n#endif\nITEM_1_ ;  Y\nITEM_2_ ;\n'}, f'a.c {o} /P /Fi out.i /quiet /no_predefines')
                t = r.files.get('out.i', b'').decode('latin1')
                s = sections(re.sub(r'^#line .*$|^#pragma comment.*$', '', t, flags=re.M))
                c.count(1)
                c.seen('cmd/' + o)
                y = {'': ['Y'], ' /D Y=3': ['3'], ' /DY=X': e}[more]
                if r.kind != 'exit' or r.code or toks(s.get(0, '')) != e + ['yes'] or toks(s.get(1, '')) != y:
                    c.violation('cmd/' + o, f'macro of the command line: {r}\n{t}', {'cmdline.txt': o})


def body(c):
    items = gen(c.thorough)
    c.cov['items'] = len(items)
    pp = PP(c)
    fams = {}
    for k, t in items:
        fams[k.split('/')[0]] = fams.get(k.split('/')[0], 0) + 1
    c.cov['families'] = fams
    deep = [x for x in items if x[0].startswith('deep')]
    pp.run([x for x in items if not x[0].startswith('deep')])
    pp.batch = 10
    pp.run(deep)
    bare(c)
    for k in ('obj3/777', 'fun1/55', 'var/20', 'paste3/100', 'str/100'):
        t = dict(items).get(k)
        if t:
            c.sample({'key': k, 'text': t})
    c.cov['exhaustive'] = True
    c.cov['rule'] = 'every macro program of the families (replacement lists up to the length bound over the token alphabet x invocation forms), preprocessed by hlc (/P) and by clang-18 -E, token sequences compared; items clang reports as ill-formed or as an extension are left out. Non-trivial: the expected token sequence is not empty.'
    c.assumptions += ['clang-18 -E -std=c11 defines the expected token sequence']


if __name__ == '__main__':
    main('C10', 'exploration', body, need_ref=False)
