"""C21: debug information describes the program.  Line tables, scopes, variable locations and types are read back from the PDB hlc writes and from the PDB lld-link makes of hlc's object, and compared
with the source (markers), with the running program (addresses) and with clang's debug information (types)."""
from common import *
import itertools, re, struct, subprocess, tempfile
import pdbdump
import pe

LIB = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef long long s64;
static u64 *o_;
#define O(x) (*o_++ = (u64)(x))
__declspec(dllexport) int M(int n){ return n; }
__declspec(dllexport) int C(int n){ return n; }
'''
NL = LIB.count('\n')


class Tool:
    def __init__(self, c):
        self.c = c
        self.seh = os.path.join(c.build.dir, 'seh.obj')
        with open(self.seh, 'wb') as f:
            f.write(c.ref.obj('int __C_specific_handler(void){ return 0; } void *__imp___C_specific_handler = __C_specific_handler;', '-O0'))

    def direct(self, files, extra=''):
        r = self.c.e.compile(files, 'a.c /dll /no_entry /no_stdlib /quiet /out a.dll' + extra)
        if r.kind != 'exit' or r.code or 'a.dll' not in r.files or 'a.pdb' not in r.files:
            return None, None, f'the compiler did not compile a valid program: {r.kind} {r.code:#x} {r.out[-600:].decode("latin1")}'
        return r.files['a.dll'], r.files['a.pdb'], None

    def obj(self, files, extra=''):
        r = self.c.e.compile(files, 'a.c /obj /quiet /out a.obj' + extra)
        if r.kind != 'exit' or r.code or 'a.obj' not in r.files:
            return None, None, f'the compiler did not compile a valid program: {r.kind} {r.code:#x} {r.out[-600:].decode("latin1")}'
        return self.link(r.files['a.obj'])

    def link(self, obj):
        b = self.c.ref.fresh()
        open(b + '.obj', 'wb').write(obj)
        p = hx.tool(['lld-link-18', '/nodefaultlib', '/nologo', '/machine:x64', '/dll', '/noentry', '/debug', f'/pdb:{b}.pdb', f'/out:{b}.dll', b + '.obj', self.seh, self.c.ref.rt])
        out = p.stdout.decode('latin1') + p.stderr.decode('latin1')
        try:
            if p.returncode or not os.path.exists(b + '.pdb'):
                return None, None, 'lld-link: ' + out[:500]
            bad = [l for l in out.splitlines() if 'warning' in l and '/rt.obj' not in l]
            return open(b + '.dll', 'rb').read(), open(b + '.pdb', 'rb').read(), ('lld-link: ' + bad[0][:300]) if bad else None
        finally:
            for x in ('.obj', '.dll', '.pdb', '.lib'):
                if os.path.exists(b + x):
                    os.unlink(b + x)

    def ref(self, src):
        return self.link(self.c.ref.obj(src, '-O0', ['-g', '-gcodeview']))[1]


PATHS = ('pdb', 'obj')


# ------------------------------------------------------------------ lines

def number(lines, first):
    out = []
    for i, l in enumerate(lines):
        out.append(l.replace('@', str(first + i)))
    return out


def stmts(d):
    """Statements as lists of source lines; @ is the line number."""
    base = [('expr', ['M(@);']), ('decl', ['int v@ = C(@);', 'M(@);']), ('ret', ['if(C(@)) return C(@) + 1;']), ('two', ['M(@); M(@);']), ('macro', ['MM(@);']), ('multi', ['x = C(@) +', ' 1;', 'M(@);']), ('cmt', ['/* a', ' b', '*/ M(@);', '// c \\', ' d', 'M(@);']),
            ('splice', ['M(\\', '1); M(1);'] if False else ['x = \\', '  3; ', 'M(@);']), ('empty', [';', '', '{}', 'M(@);']), ('goto', ['if(C(@)) goto l@;', 'M(@);', 'LBL', 'M(@);']), ('static', ['static int s@ = 3; M(@);']), ('asg', ['x = C(@);', 'x += C(@);', 'p[0] = C(@);', '*p = (char)C(@);']), ('cond', ['x = C(@) ? C(@) : C(@);']), ('logic', ['x = C(@) && C(@) || C(@);'])]
    if d == 0:
        return base
    inner = stmts(d - 1)
    out = []
    sub = base if d == 1 else [s for s in inner]
    for n, s in sub:
        out += [('if/' + n, ['if(C(@)){'] + s + ['}', 'M(@);']), ('ifelse/' + n, ['if(C(@)){', 'M(@);', '}else{'] + s + ['}', 'M(@);']), ('elseif/' + n, ['if(C(@))', 'M(@);', 'else if(C(@)){'] + s + ['}', 'else', 'M(@);']),
                ('while/' + n, ['while(C(@)){'] + s + ['break;', '}', 'M(@);']), ('do/' + n, ['do{'] + s + ['}while(C(@) < 0);', 'M(@);']), ('for/' + n, ['for(x = C(@); C(@); x += C(@)){'] + s + ['if(C(@)) break;', '}', 'M(@);']),
                ('fordecl/' + n, ['for(int i@ = C(@); C(@);){'] + s + ['if(C(@)) continue;', 'M(@);', '}', 'M(@);']), ('switch/' + n, ['switch(C(@)){', 'case 1:'] + s + ['break;', 'case 2: M(@);', 'case 3:{', 'M(@);', '}', 'default:', 'M(@);', '}', 'M(@);']), ('block/' + n, ['{', '{'] + s + ['}', 'M(@);', '}', 'M(@);']),
                ('try/' + n, ['__try{'] + s + ['}__except(1){', 'M(@);', '}', 'M(@);'])]
    return out


def fix_labels(lines):
    """goto l<line> ; LBL lines become that label"""
    out, lab = [], None
    for l in lines:
        m = re.search(r'goto l(\d+);', l)
        if m:
            lab = m[1]
        out.append(f'l{lab}:;' if l == 'LBL' else l)
    return out


def check_lines(c, tool, depth, paths):
    S = stmts(0) + stmts(1) + (stmts(2) if depth > 1 else [])
    heads = [('plain', ['int f%(int x, char *p){']), ('split', ['int', 'f%(int x,', '   char *p)', '{'])]
    work = []
    for hn, h in heads:
        for n, s in S if hn == 'plain' else S[:len(stmts(0))]:
            work.append((f'{hn}/{n}', h + s + ['return C(@);', '}']))
    per = 24
    batches = [work[i:i + per] for i in range(0, len(work), per)]

    def run(b):
        for path in paths:
            one(b, path)

    def one(b, path):
        # half of the functions live in an included file
        main, inc, want = [], [], {}
        for k, (key, ls) in enumerate(b):
            tgt = inc if k % 4 == 3 else main
            first = len(tgt) + 1 + (NL + 3 if tgt is main else 0)
            body = fix_labels(number(ls, first))
            body = [l.replace('%', str(k)) for l in body]
            for l in body:
                tgt.append(l)
            marks = {}
            for i, l in enumerate(body):
                for m in re.finditer(r'\b(?:M|C|MM)\((\d+)\)', l):
                    marks[int(m[1])] = marks.get(int(m[1]), 0) + 1
            want[k] = (key, 'b.h' if tgt is inc else 'a.c', first, first + len(body) - 1, marks)
        src = LIB + '#define MM(x) do{ M(x); }while(0)\n' + '#include "b.h"\n' + '\n' + '\n'.join(main) + '\n' + '__declspec(dllexport) int run(int x, char *p){ return ' + ' + '.join(f'f{k}(x, p)' for k in range(len(b))) + '; }\n'
        files = {'a.c': src, 'b.h': '\n'.join(inc) + '\n'}
        dll, pdb, err = (tool.direct if path == 'pdb' else tool.obj)(files)
        rep = dict(files, **{'cmdline.txt': 'hlc a.c ' + ('/dll /no_entry /no_stdlib' if path == 'pdb' else '/obj')})
        if err:
            if len(b) > 1:
                one(b[:len(b) // 2], path)
                one(b[len(b) // 2:], path)
            else:
                c.violation(f'lines/{path}/{b[0][0]}', err, rep)
            return
        P = pdbdump.Pdb(pdb)
        funs, _ = P.symbols()
        L = P.lines()
        tx = Text(dll)
        text = tx.data
        byname = {f['name']: f for f in funs}
        try:
            m_, c_ = byname['M']['off'], byname['C']['off']
        except KeyError:
            c.violation(f'lines/{path}/{b[0][0]}', f'no symbols for the functions M and C ({sorted(byname)[:8]})', rep)
            return
        for k in range(len(b)):
            key, fn, lo, hi, marks = want[k]
            key = f'lines/{path}/{key}'
            c.count(1)
            f = byname.get(f'f{k}')
            if f is None:
                c.violation(key, f'no symbol record for function f{k}', rep)
                continue
            a, e = f['off'], f['off'] + f['size']
            bound = tx.bounds(a, e)
            T = [t for t in L if t[1] == f['sec'] and t[2] < e and t[3] > a]
            ent = sorted((off, line, t[0]) for t in T for line, off in t[4])
            if not T or any(t[2] < a or t[3] > e for t in T):
                c.violation(key, f'line table blocks {[(hex(t[2]), hex(t[3])) for t in T]} do not match the function {a:#x}-{e:#x}', rep)
                continue
            for t in T:
                offs = [o for _, o in t[4]]
                if offs != sorted(offs):
                    c.violation(key, f'line entries are not sorted: {offs}', rep)
            if not ent or ent[0][0] != a:
                c.violation(key, f'the first line entry {ent[:1]} is not at the start of the function {a:#x}', rep)
                continue
            bad = [(hex(o), l, fl) for o, l, fl in ent if not (a <= o < e) or not lo <= l <= hi or not fl.replace('\\', '/').endswith('/' + fn) or o not in bound]
            if bad:
                c.violation(key, f'line entries outside the function (lines {lo}-{hi} of {fn}) or not at an instruction: {bad[:4]}', rep)
                continue
            seen = {}
            for j in sorted(x for x in bound if a <= x <= e - 5):
                if text[j] == 0xb9:
                    i = j
                if text[j] == 0xe8 and j + 5 + struct.unpack_from('<i', text, j + 1)[0] in (m_, c_):
                    n = struct.unpack_from('<I', text, i + 1)[0]
                    got = [l for o, l, _ in ent if o <= i][-1]
                    got2 = [l for o, l, _ in ent if o <= j][-1]
                    seen[n] = seen.get(n, 0) + 1
                    if (got, got2) != (n, n):
                        c.violation(key, f'the call at {j:#x} belongs to line {n}, the line table says {got} (call: {got2})\nfunction lines: {[x for x in ent]}\n' + '\n'.join((inc if fn == 'b.h' else src.split('\n'))[lo - 1:hi]), rep)
                        break
            else:
                if seen != marks:
                    c.violation(key, f'generator: markers {marks} expected, {seen} found', rep)
                elif marks:
                    c.seen(key)
        for x in P.errors[:1]:
            c.violation(f'lines/{path}/malformed', x, rep)
    c.e.map(run, batches)


# ------------------------------------------------------------------ scopes and locations

VT = [('int', 's32'), ('char', 's8'), ('u16', 'u16'), ('s64', 's64'), ('double', 'f64'), ('float', 'f32'), ('S *', '*struct S'), ('S', 'struct S'), ('int[5]', '[20]s32'), ('char[3]', '[3]s8'), ('_Bool', 'bool'), ('u8', 'u8'), ('u64', 'u64'), ('B', 'struct B'), ('u32 *', '*u32')]
PRE = 'typedef struct S{ int a, b, c; } S; typedef struct B{ char x[100]; } B;\n'
KINDS = [(['{'], ['}']), (['if(C(1)){'], ['}']), (['if(C(0)){}else{'], ['}']), (['while(C(1)){'], ['break;', '}']), (['do{'], ['}while(C(0));']), (['for(int i_ = 0; C(i_ < 1); i_++){'], ['}']), (['switch(C(1)){', 'case 1:{'], ['}', '}']), (['__try{'], ['}__except(1){ M(99); }'])]


def vdecl(t, n):
    m = re.match(r'(\w+(?: \*)?)(\[\d+\])?$', t)
    return f'{m[1]} {n}{m[2] or ""};'


class Shape:
    """A function body: nested scopes with declarations of a, b, c; observations everywhere."""
    def __init__(self, k, rot, vt):
        self.k, self.rot, self.vt = k, rot, vt
        self.lines, self.obs, self.n = [], {}, 0

    def observe(self, env):
        self.n += 1
        i = self.k * 100 + self.n
        self.lines.append(f'M({i}); O({i});' + ''.join(f' O(&{v});' for v in sorted(env)))
        self.obs[i] = dict(env)

    def scope(self, tree, env, kind=None):
        decls, children = tree
        env = dict(env)
        for v in decls:
            t = VT[self.vt % len(VT)]
            self.vt += 1
            self.lines.append(vdecl(t[0], v))
            env[v] = t[1]
        self.observe(env)
        for ch in children:
            op, cl = KINDS[self.rot % len(KINDS)]
            self.rot += 1
            self.lines += op
            self.scope(ch, env)
            self.lines += cl
            self.observe(env)


def trees(d, wide):
    names = [(), ('a',), ('b',), ('a', 'b')]
    if d == 1:
        return [(n, ()) for n in names]
    sub = trees(d - 1, wide)
    leaf = trees(1, wide)
    ch = [()] + [(x,) for x in sub]
    if d == 2 or wide:
        ch += [(x, y) for x in sub for y in leaf] + [(y, x) for x in sub for y in leaf if x not in leaf]
    return [(n, c) for n in names for c in ch]


SLOTS = 12

def check_scopes(c, tool, paths):
    T = trees(3, c.thorough)
    work = [(f'tree/{i}', t, i, i // 3) for i, t in enumerate(T)]
    ab = ('a', 'b')
    for i in range(len(KINDS)):
        for j in range(len(KINDS)):
            # child of kind i containing a child of kind j; both declare
            sh = (ab, ((ab, ((ab, ()),)),))
            work.append((f'kind/{i}/{j}', ('K', sh, i, j), 0, i + 3 * j))
    pts = [t for t in VT if '[' not in t[0]]
    for i, t in enumerate(pts):
        for pos in range(6):
            for va in (0, 1):
                work.append((f'param/{t[0]}/{pos}/{va}', ('P', t, pos, va), 0, i + pos))
    per = 60
    batches = [work[i:i + per] for i in range(0, len(work), per)]

    def run(b):
        for path in paths:
            one(b, path)

    def one(b, path):
        fs, shapes = [], []
        for k, (key, t, rot, vt) in enumerate(b):
            sh = Shape(k + 1, rot, vt)
            env, params, args = {}, 'int k_', '1'
            if t and t[0] == 'P':
                _, ty, pos, va = t
                ps, as_ = [], []
                for i in range(6):
                    if i == pos:
                        ps.append(f'{ty[0]} q')
                        env['q'] = ty[1]
                        as_.append('zs' if ty[0] == 'S' else 'zb' if ty[0] == 'B' else '0')
                    else:
                        x = VT[(i + pos) % 7]
                        ps.append(f'{x[0]} p{i}')
                        env[f'p{i}'] = x[1]
                        as_.append('0')
                params, args = ', '.join(ps) + (', ...' if va else ''), ', '.join(as_)
                sh.lines += ['int k_ = 1;', f'for(int z_ = 0; z_ < {SLOTS}; z_++) O(((u64 *)bp_)[z_]);']
                sh.scope((('a',), ((('p2',), ()),)), env)
            elif t and t[0] == 'K':
                _, tr, i, j = t
                r = iter((i, j))
                sh.rot = i
                sv = sh.scope
                # kinds i then j
                def scope(tree, env, depth=0, kinds=(i, j), sh=sh):
                    decls, children = tree
                    env = dict(env)
                    for v in decls:
                        ty = VT[sh.vt % len(VT)]
                        sh.vt += 1
                        sh.lines.append(vdecl(ty[0], v))
                        env[v] = ty[1]
                    sh.observe(env)
                    for ch in children:
                        op, cl = KINDS[kinds[depth]]
                        sh.lines += op
                        scope(ch, env, depth + 1)
                        sh.lines += cl
                        sh.observe(env)
                scope(tr, {'k_': 's32'})
            else:
                sh.scope(t, {'k_': 's32'})
            shapes.append(sh)
            fs.append(f'__declspec(dllexport) int f{k}({params}){{\nu64 bp_; __asm__{{ mov bp_, rbp }}\nO(bp_);\n' + '\n'.join(sh.lines) + '\nreturn 0;\n}\n')
            fs.append(f'__declspec(dllexport) u64 run{k}(u64 *o, u64 n){{ u64 *s = o; S zs = {{0}}; B zb = {{0}}; o_ = o; O(&M); f{k}({args}); return (u64)o_ - (u64)s; }}\n')
        src = LIB + PRE + ''.join(fs)
        rep = {'a.c': src, 'cmdline.txt': 'hlc a.c ' + ('/dll /no_entry /no_stdlib' if path == 'pdb' else '/obj')}
        dll, pdb, err = (tool.direct if path == 'pdb' else tool.obj)({'a.c': src})
        if err:
            if len(b) > 1:
                one(b[:len(b) // 2], path)
                one(b[len(b) // 2:], path)
            else:
                c.violation(f'scopes/{path}/{b[0][0]}', err, rep)
            return
        P = pdbdump.Pdb(pdb)
        funs, _ = P.symbols()
        P.procrefs()
        for x in P.errors[:1]:
            c.violation(f'scopes/{path}/{b[0][0]}', x, rep)
            return
        tx = Text(dll)
        byname = {f['name']: f for f in funs}
        if 'M' not in byname:
            c.violation(f'scopes/{path}/{b[0][0]}', 'no symbol for the function M', rep)
            return
        for k, (key, t, *_r) in enumerate(b):
            key = f'scopes/{path}/{key}'
            c.count(1)
            f = byname.get(f'f{k}')
            if f is None:
                c.violation(key, f'no symbol record for f{k}', rep)
                continue
            r = c.e.run_dll(dll, f'run{k}', bufsize=1 << 16)
            if r.kind != 'exit':
                c.violation(key, f'the program did not run: {r.kind} {r.code:#x}', rep)
                continue
            w = struct.unpack(f'<{len(r.buf) // 8}Q', r.buf)
            base = w[0] - byname['M']['off']
            bp = w[1]
            at = calls(tx, f, byname['M']['off'])
            obs = shapes[k].obs
            i, bad = 2 + SLOTS * (t[:1] == ('P',)), None
            hit = 0
            while i < len(w) and not bad:
                env = obs.get(w[i])
                if env is None or w[i] not in at:
                    bad = f'generator: observation {w[i]} {at}'
                    break
                got = resolve(f['scope'], at[w[i]])
                for j, (v, ty) in enumerate(sorted(env.items())):
                    a = w[i + 1 + j]
                    if v not in got:
                        bad = f'at {at[w[i]]:#x} (marker {w[i]}) the debug information has no variable {v}'
                        break
                    n_, t_, kind, loc = got[v]
                    if kind != 'S_REGREL32' or loc[0] != 'RBP':
                        bad = f'{v}: {kind} {loc}'
                    elif v == 'q' and ty in ('struct S', 'struct B') and t_ and P.canon(t_) == '*' + ty:
                        # passed by reference: the slot holds a pointer
                        if loc[1] & 7 or not 0 <= loc[1] < 8 * SLOTS or w[2 + loc[1] // 8] != a:
                            bad = f'{v} is passed by reference, but its slot rbp{loc[1]:+#x} does not hold its address'
                    elif (bp + loc[1]) & (1 << 64) - 1 != a:
                        bad = f'at {at[w[i]]:#x} (marker {w[i]}) the debug information places {v} at rbp{loc[1]:+#x}, it is at rbp{a - bp:+#x}'
                    elif P.canon(t_) != ty:
                        bad = f'at {at[w[i]]:#x} (marker {w[i]}) the debug information gives {v} the type {P.canon(t_)}, it is {ty}'
                    if bad:
                        break
                hit += 1
                i += 1 + len(env)
            if bad:
                c.violation(key, bad + f'\nscopes: {show(f["scope"])}\n' + fs[2 * k], rep)
            else:
                c.seen((key, hit))
    c.e.map(run, batches)


def calls(tx, f, m):
    """{marker number: address of the call}"""
    r, i = {}, None
    for j in sorted(x for x in tx.bounds(f['off'], f['off'] + f['size']) if f['off'] <= x <= f['off'] + f['size'] - 5):
        if tx.data[j] == 0xb9:
            i = j
        if tx.data[j] == 0xe8 and j + 5 + struct.unpack_from('<i', tx.data, j + 1)[0] == m:
            r[struct.unpack_from('<I', tx.data, i + 1)[0]] = j
    return r


def resolve(s, a):
    """The variables a debugger sees at address a (inner scopes hide outer ones)."""
    r = {v[0]: v for v in s[2]}
    for ch in s[3]:
        if ch[0] <= a < ch[1]:
            r.update(resolve(ch, a))
    return r


def show(s, d=0):
    return '\n' + '  ' * d + f'[{s[0]:#x},{s[1]:#x}) ' + ', '.join(f'{v[0]}:{v[1]}@{v[3]}' for v in s[2]) + ''.join(show(x, d + 1) for x in s[3])


# ------------------------------------------------------------------ functions and data

def check_data(c, tool, paths):
    tys = [t[0] for t in VT]
    work = list(itertools.product(tys, ('', 'static '), ('', ' = {0}', ' = {1}'), ('g', 'l')))
    per = 30
    batches = [work[i:i + per] for i in range(0, len(work), per)]

    def run(b):
        for path in paths:
            one(b, path)

    def one(b, path):
        decl, fs = '', ''
        for k, (ty, st, ini, where) in enumerate(b):
            d = vdecl(ty, f'v{k}')[:-1]
            if ini and not ('S' == ty or 'B' == ty or '[' in ty):
                ini = ini.replace('{', '').replace('}', '')
            if '*' in ty and '1' in ini:
                ini = ' = (void *)1'
            if where == 'g':
                decl += f'{st}{d}{ini};\n'
            fs += f'__declspec(dllexport) void f{k}(void){{ ' + (f'static {d}{ini};' if where == 'l' else '') + f' O(&v{k}); O(&f{k}); }}\n'
        src = LIB + PRE + decl + fs + '__declspec(dllexport) u64 run(u64 *o, u64 n){ u64 *s = o; o_ = o; O(&M); ' + ' '.join(f'f{k}();' for k in range(len(b))) + ' return (u64)o_ - (u64)s; }\n'
        rep = {'a.c': src, 'cmdline.txt': 'hlc a.c ' + ('/dll /no_entry /no_stdlib' if path == 'pdb' else '/obj')}
        dll, pdb, err = (tool.direct if path == 'pdb' else tool.obj)({'a.c': src})
        if err:
            c.violation(f'data/{path}/{b[0]}', err, rep)
            return
        P = pdbdump.Pdb(pdb)
        funs, loose = P.symbols()
        G = {}
        for kind, n, t in P.globals():
            m = re.search(r'type = (0x\w+.*), addr = (\d+):(\d+)', t)
            if m:
                G.setdefault(n, []).append((kind, m[1], int(m[2]), int(m[3])))
        P.misc()
        P.procrefs()
        for x in P.errors[:1]:
            c.violation(f'data/{path}/{b[0]}', x, rep)
            return
        r = c.e.run_dll(dll, 'run', bufsize=1 << 16)
        if r.kind != 'exit':
            c.violation(f'data/{path}/{b[0]}', f'the program did not run: {r.kind} {r.code:#x}', rep)
            return
        w = struct.unpack(f'<{len(r.buf) // 8}Q', r.buf)
        p = pe.PE(dll)
        byname = {f['name']: f for f in funs}
        base = w[0] - p.secs[0]['va'] - byname['M']['off']
        va = lambda sec, off: base + p.secs[sec - 1]['va'] + off
        pd = pdata(p)
        for f in funs:
            rva = p.secs[f['sec'] - 1]['va'] + f['off']
            if pd.get(rva) != rva + f['size']:
                c.violation(f'data/{path}/pdata', f'{f["name"]}: the debug information says [{rva:#x}, {rva + f["size"]:#x}), .pdata says {pd.get(rva)}', rep)
            if not 0 < f['dbg'][0] <= f['dbg'][1] <= f['size']:
                c.violation(f'data/{path}/dbg', f'{f["name"]}: debug start and end {f["dbg"]}, size {f["size"]}', rep)
        for k, (ty, st, ini, where) in enumerate(b):
            key = f'data/{path}/{ty}/{st}{ini}/{where}'
            c.count(1)
            a, fa = w[1 + 2 * k], w[2 + 2 * k]
            f = byname.get(f'f{k}')
            want = dict(VT)[ty]
            if f is None or va(f['sec'], f['off']) != fa:
                c.violation(key, f'the function f{k} is at {fa - base:#x}, the debug information says {f}', rep)
                continue
            g = G.get(f'v{k}')
            if not g:
                if where == 'g':
                    c.violation(key, f'no record of the variable v{k}', rep)
                continue
            for kind, t, sec, off in g:
                if va(sec, off) != a:
                    c.violation(key, f'the variable v{k} is at {a - base:#x}, the debug information says {sec}:{off:#x} = {va(sec, off) - base:#x}', rep)
                elif P.canon(t) != want:
                    c.violation(key, f'the debug information says that v{k} is {P.canon(t)}, it is {want}', rep)
                elif where == 'g' and kind != ('S_LDATA32' if st else 'S_GDATA32'):
                    c.violation(key, f'the record of the {"static" if st else "external"} variable v{k} is {kind}', rep)
                else:
                    c.seen(key)
    c.e.map(run, batches)


def pdata(p):
    s = next(x for x in p.secs if x['name'].startswith('.pdata'))
    d = p.at(s['va'], s['vs'])
    return {a: b for a, b, u in struct.iter_unpack('<III', d[:len(d) // 12 * 12]) if a}


# ------------------------------------------------------------------ types

BASES = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', '_Bool', 'float', 'double', 'struct S', 'union U', 'enum E', 'void', 'struct Self', 'struct Fwd', 'T', 'Tp', 'const int', 'volatile char', 'struct Nest', 'struct Bits', 'union Big', 'struct Wide', 'enum F', 'TE']
TYPES = """struct S { int a; char b; struct S *next; };
union U { char c; double d; struct S s; int arr[3]; };
enum E { E0, E1 = -1, E2 = 5, E3 = 127, E4 = 128, E5 = 32767, E6 = 32768, E7 = 65535, E8 = 65536, E9 = 0x7fffffff, E10 = -128, E11 = -129, E12 = -32768, E13 = -32769, E14 = -0x7fffffff - 1 };
enum F { F0 = 3 };
struct Fwd;
struct Mut2;
struct Mut1 { struct Mut2 *a; int x; };
struct Mut2 { struct Mut1 b; struct Mut1 *c; struct Fwd *f; };
struct Self { struct Self *l, *r; struct Mut2 m; int (*cmp)(struct Self *, struct Self *); struct Self *(*get[3])(int); };
typedef struct T { short s; struct S in; } T;
typedef struct S *Tp;
typedef enum F TE;
struct Nest { int a; struct { int b; union { int c; float d; }; }; struct { char e; } f; union { short g; } h[2]; struct In { int i; } j; enum { N0, N1 } k; };
struct Bits { int a : 3; unsigned b : 7; int : 0; unsigned char c : 1; unsigned char d : 7; long long e : 33; unsigned long long f : 31; short g : 15; int h; int i : 32; };
union Big { char a[0x7fff]; char b[0x8000]; int c[0x10000]; };
struct Wide { char a[0x7fff]; char b; char c[0x7fff]; char d; char e; char f[0x7fffffff - 0x20000]; int g; };
"""


def declarators():
    out = ['@']
    for d in ('*@', '@[3]', '@[70000]', '(*@)(void)', '**@', '(*@)[4]', '*@[4]', '@[2][3]', '(*@)(int, char)', '*(*@)(int)', '(*@[2])(void)', '(**@)(int *)', '(*(*@)(int))(char)', '(*(*@)[3])(int)', '***@', '@[2][3][4]', '(*@)[2][3]', '*(*@)[2]', '(*@)(int, ...)', '(*@)(struct S, union U *)', '(*@)(int (*)(void))'):
        out.append(d)
    return out


def check_types(c, tool):
    items = []
    for b in BASES:
        for d in declarators():
            if d == '@' and b in ('void', 'struct Fwd', 'struct Wide') or '[70000]' in d and b in ('struct Wide', 'struct Fwd', 'void', 'union Big', 'struct Bits'):
                continue
            arr = re.match(r'@\[', d)
            if b in ('void', 'struct Fwd') and arr or b == 'struct Wide' and '@[' in d and '*' not in d:
                continue
            if b in ('void', 'struct Fwd') and ')[' in d and '(*@)[' in d or b in ('void', 'struct Fwd') and d in ('*@[4]',) and False:
                continue
            if b == 'struct Wide' and '[' in d and '*@[' not in d and '(*@[' not in d:
                continue
            if b == 'struct Fwd' and '(' in d and ')(' in d and not d.startswith('*'):
                continue
            items.append((b, d))
    # functions
    funs = []
    R = ['void', 'int', 'char *', 'double', 'struct S', 'struct T *', 'enum E', 'unsigned long long', '_Bool', 'float', 'T', 'union U']
    A = ['void', 'int', 'char', 'int, char, short, long long', 'struct S, union U', 'int *, struct S *, void *', 'double, float', 'int, ...', 'enum E', 'T, Tp', 'int (*)(int), int (*)[3]', 'int[3], char[][4]', 'const char *, volatile int *', 'unsigned char, signed char, unsigned short, unsigned, unsigned long, unsigned long long, _Bool'] + [', '.join(['int'] * n) for n in (5, 16, 17, 100)]
    for r in R:
        for a in A:
            funs.append((r, a))
    per = 60
    batches = [('v', items[i:i + per]) for i in range(0, len(items), per)] + [('f', funs[i:i + per]) for i in range(0, len(funs), per)] + [('d', structs(c))]

    def source(kind, b):
        s = LIB + TYPES
        if kind == 'v':
            for k, (base, d) in enumerate(b):
                big = base in ('union Big',) or '70000' in d or base == 'struct Wide' and d == '@'
                v = f'{base} ' + d.replace('@', f'g{k}') + ';\n'
                s += v + 'static ' + v.replace(f'g{k}', f's{k}') if base != 'const int' else v
                l = '' if big else ' '.join([base, d.replace('@', f'l{k}')]) + f'; O(&l{k});'
                pd = d if not d.startswith('@[') else '*@'
                pa = 'int dummy' if base in ('void', 'struct Fwd', 'union Big', 'struct Wide') and pd == '@' or base == 'void' and pd == '@' else f'{base} ' + pd.replace('@', f'p{k}')
                s += f'__declspec(dllexport) void f{k}({pa}){{ O(&g{k}); ' + (f'O(&s{k}); ' if base != 'const int' else '') + f'{{ {l} }} }}\n'
        elif kind == 'f':
            for k, (r, a) in enumerate(b):
                n = [0]

                def name(x):
                    n[0] += 1
                    x = x.strip()
                    if x in ('...', 'void'):
                        return x
                    if '(*)' in x:
                        return x.replace('(*)', f'(*a{n[0]})', 1)
                    if '[' in x:
                        return x.replace('[', f' a{n[0]}[', 1)
                    return f'{x} a{n[0]}'
                s += f'__declspec(dllexport) {r} f{k}({", ".join(name(x) for x in split(a))}){{ ' + ('' if r == 'void' else f'static {r} z; return z;') + ' }\n'
        else:
            for k, (n, d, v) in enumerate(b):
                s += d + '\n' + v + f' v{k};\n__declspec(dllexport) void f{k}(void){{ O(&v{k}); }}\n'
        return s

    def run(w):
        kind, b = w
        src = source(kind, b)
        refp = tool.ref(src)
        R = pdbdump.Pdb(refp)
        for path in PATHS:
            one(kind, b, src, R, path)

    def one(kind, b, src, R, path):
        rep = {'a.c': src, 'cmdline.txt': 'hlc a.c ' + ('/dll /no_entry /no_stdlib' if path == 'pdb' else '/obj')}
        dll, pdb, err = (tool.direct if path == 'pdb' else tool.obj)({'a.c': src})
        if err:
            c.violation(f'types/{path}/{kind}/{b[0]}', err, rep)
            return
        P = pdbdump.Pdb(pdb)
        ours, refs = names(P), names(R)
        P.misc()
        P.procrefs()
        for x in P.errors[:1]:
            c.violation(f'types/{path}/{kind}/{b[0]}', x, rep)
            return
        d1, d2 = P.definitions(), R.definitions()
        for k, it in enumerate(b):
            key = f'types/{path}/{kind}/{"/".join(it[:2] if kind != "d" else it[:1])}'
            c.count(1)
            bad = None
            keys = [f'{x}{k}' for x in 'gsv'] + [('f%d' % k, x) for x in [f'p{k}', f'l{k}'] + [f'a{i}' for i in range(1, 101)]] + [('fn', f'f{k}')]
            hit = 0
            for x in keys:
                if x not in refs:
                    continue
                if x not in ours:
                    if x == f's{k}' or x == f'v{k}' or x == f'g{k}' or isinstance(x, tuple):
                        bad = f'no record for {x}'
                        break
                    continue
                a, r = ours[x], refs[x]
                if 'enum' in r or 'enum' in a:
                    a, r = (re.sub(r'enum (E|F)\b', 's32', y) for y in (a, r))
                hit += 1
                if a != r:
                    bad = f'the debug information of {x} says {a}, it is {r}'
                    break
            if bad is None and kind == 'd':
                n = (it[2].split()[0], it[2].split()[1])
                k2 = ({'struct': 'LF_STRUCTURE', 'union': 'LF_UNION', 'enum': 'LF_ENUM'}[n[0]], n[1])
                if d1.get(k2) != d2.get(k2):
                    bad = f'the definition of {it[2]} is {short(d1.get(k2), d2.get(k2))}'
            if bad:
                c.violation(key, bad, rep)
            elif hit:
                c.seen(key)
            else:
                c.violation(key, 'generator: nothing compared', rep)
        if kind == 'v':
            for k2 in d2:
                if k2 in d1 and d1[k2] != d2[k2]:
                    c.violation(f'types/{path}/def/{k2[1]}', f'the definition of {k2} is {short(d1[k2], d2[k2])}', rep)
                elif k2 in d1:
                    c.seen(f'types/{path}/def/{k2[1]}')
                elif any(k2[1] == x[0].split()[-1] and x[1] == '@' for x in b):
                    c.violation(f'types/{path}/def/{k2[1]}', f'no definition of {k2}', rep)
    c.e.map(run, batches)


def split(a):
    r, d, cur = [], 0, ''
    for ch in a:
        d += (ch in '([') - (ch in ')]')
        if ch == ',' and not d:
            r.append(cur)
            cur = ''
        else:
            cur += ch
    return r + [cur]


def short(a, b):
    a, b = str(a), str(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    i = max(0, i - 60)
    return f'…{a[i:i + 200]}… but should be …{b[i:i + 200]}…'


def names(P):
    r = {}
    funs, loose = P.symbols()
    for f in funs:
        if f['type']:
            r['fn', f['name']] = P.canon(f['type'])
        else:
            r['fn', f['name']] = 'no type'

        def walk(s):
            for v in s[2]:
                r[f['name'], v[0]] = P.canon(v[1])
            for x in s[3]:
                walk(x)
        walk(f['scope'])
    for kind, n, t in P.globals():
        m = re.search(r'type = (0x\w+.*), addr', t)
        if m and 'DATA32' in kind:
            r[n] = P.canon(m[1])
    return r


def structs(c):
    out = []
    for b in ('char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long long', 'unsigned long long', '_Bool'):
        w = {'c': 8, 's': 16, 'i': 32, 'u': 32, 'l': 64, '_': 1}[b.split()[-1][0] if b != 'unsigned' else 'u']
        w = {'char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'long long': 64, 'unsigned long long': 64, '_Bool': 1}[b]
        for x in sorted({1, 2, w // 2, w - 1, w} - {0}):
            for y in sorted({1, w // 2 + 1, w} - {0}):
                if y > w or x > w:
                    continue
                n = f'BF{len(out)}'
                out.append((n, f'struct {n} {{ {b} a : {x}; {b} b : {y}; {b} : 1; {b} c : 1; }};', f'struct {n}'))
    for cnt in (1, 2, 3, 100, 700, 3000) + ((9000,) if c.thorough else ()):
        n = f'MM{cnt}'
        out.append((n, f'struct {n} {{ ' + ' '.join(f'int member_with_a_long_name_{i};' for i in range(cnt)) + ' };', f'struct {n}'))
        n = f'MU{cnt}'
        out.append((n, f'union {n} {{ ' + ' '.join(f'char member_with_a_long_name_{i}[{i % 7 + 1}];' for i in range(cnt)) + ' };', f'union {n}'))
        n = f'ME{cnt}'
        out.append((n, f'enum {n} {{ ' + ', '.join(f'{n}_enumerator_with_a_long_name_{i}' + (f' = {i * 131071 - 70000}' if i % 5 == 0 else '') for i in range(cnt)) + ' };', f'enum {n}'))
    for d in range(1, 7):
        n = f'DN{d}'
        t = 'int x0;'
        for i in range(d):
            t = f'{("struct", "union")[i % 2]} {{ {t} char y{i}; }}' + (f' m{i};' if i % 3 == 0 else ';')
        out.append((n, f'struct {n} {{ int z; {t} short w; }};', f'struct {n}'))
    for p in (1, 2, 4, 8):
        n = f'PK{p}'
        out.append((n, f'#pragma pack(push, {p})\nstruct {n} {{ char a; double b; short c; int d; char e[3]; long long f; }};\n#pragma pack(pop)\n', f'struct {n}'))
    for al in (1, 2, 4, 8, 16, 32, 64):
        n = f'AL{al}'
        if al >= 1:
            out.append((n, f'struct {n} {{ char a; _Alignas({al}) char b; }};', f'struct {n}'))
    for ln in (1, 31, 63, 127, 250, 255, 256, 1000, 4000):
        n = 'L' + 'x' * (ln - 1) + f'{ln}'
        out.append((n, f'struct {n} {{ int {"m" * ln}; struct {n} *p; }};', f'struct {n}'))
    return out


class Text:
    """The first section of an image and the instruction boundaries of its functions."""
    def __init__(self, dll):
        self.p = pe.PE(dll)
        x = self.p.secs[0]
        self.va = x['va']
        self.data = self.p.at(x['va'], x['vs'])
        self.dll = dll
        self.b = self._dis()

    def _dis(self, *opt):
        with tempfile.NamedTemporaryFile(suffix='.dll') as f:
            f.write(self.dll)
            f.flush()
            p = hx.tool(['llvm-objdump-18', '-d', '-j', '.text', '--no-show-raw-insn', *opt, f.name])
        off = self.p.base + self.va
        return {int(x, 16) - off for x in re.findall(rb'^\s*([0-9a-f]+):', p.stdout, re.M)}

    def bounds(self, lo, hi):
        if lo in self.b:
            return self.b
        off = self.p.base + self.va
        return self._dis(f'--start-address={lo + off}', f'--stop-address={hi + off}')


def body(c):
    t = Tool(c)
    check_lines(c, t, 2 if c.thorough else 1, PATHS)
    check_scopes(c, t, PATHS)
    check_data(c, t, PATHS)
    check_types(c, t)


if __name__ == '__main__':
    main('C21', 'exploration', body)
