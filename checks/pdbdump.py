"""Reads a PDB with llvm-pdbutil: types (canonical form), symbols, line tables, globals."""
import os, re, tempfile
import hx

BIN = '/usr/lib/llvm-18/bin/llvm-pdbutil'
SIMPLE = {}


def tool(pdb, *opts):
    with tempfile.NamedTemporaryFile(suffix='.pdb', dir=os.environ.get('HX_TMP')) as f:
        f.write(pdb)
        f.flush()
        p = hx.tool([BIN, 'dump', *opts, f.name])
    return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')


INT = {'char': 's8', 'signed char': 's8', '__int8': 's8', 'unsigned char': 'u8', 'unsigned __int8': 'u8', 'short': 's16', '__int16': 's16', 'unsigned short': 'u16', 'unsigned __int16': 'u16', 'int': 's32', 'long': 's32', '__int32': 's32', 'unsigned': 'u32', 'unsigned long': 'u32', 'unsigned int': 'u32',
       '__int64': 's64', 'unsigned __int64': 'u64', 'wchar_t': 'u16', 'bool': 'bool', '__bool': 'bool', 'float': 'f32', 'double': 'f64', 'void': 'void', 'long double': 'f64', 'HRESULT': 'HRESULT', 'std::nullptr_t': 'null', '<no type>': 'none'}


def simple(n):
    n = n.strip()
    if n.endswith('*'):
        return '*' + simple(n[:-1])
    return INT.get(n, '?' + n)


def module0(out):
    i = out.find('  Mod 0000 |') if '  Mod 0000 |' in out else out.find('Mod 0000 |')
    j = out.find('Mod 0001 |', i)
    return out if i < 0 else out[i:] if j < 0 else out[i:j]


class Pdb:
    def __init__(self, data):
        self.data = data
        rc, out, err = tool(data, '-types')
        self.errors = []
        self._err('-types', rc, out, err)
        self.types = {}
        cur = None
        for l in out.splitlines():
            m = re.match(r'\s+0x([0-9A-F]+) \| (LF_\w+) \[size = \d+\](?: `(.*)`)?', l)
            if m:
                cur = (m[2], m[3], [])
                self.types[int(m[1], 16)] = cur
            elif cur and l.strip():
                cur[2].append(l.strip())

    def _err(self, what, rc, out, err):
        if rc or err.strip() or 'rror occurred' in out or 'nexpected error' in out:
            m = re.search(r'.*rror.*', out)
            self.errors.append(f'llvm-pdbutil dump {what}: exit {rc} {err.strip()[:200]} {m[0].strip() if m else ""}')

    def ref(self, s):
        """'0x1004 (S)' or '0x0074 (int)' or '<no type>'"""
        m = re.match(r'0x([0-9A-Fa-f]+)(?: \((.*)\))?', s.strip())
        return (int(m[1], 16), m[2]) if m else (0, s)

    def canon(self, s, depth=0):
        i, n = self.ref(s) if isinstance(s, str) else (s, None)
        if i < 0x1000:
            return simple(n or '<no type>') if i else 'none'
        if i not in self.types:
            return f'?{i:x}'
        k, name, body = self.types[i]
        b = ' '.join(body)
        if depth > 12:
            return '...'
        if k == 'LF_POINTER':
            return '*' + self.canon(re.search(r'referent = (0x\w+(?: \((?:[^()]|\([^()]*\))*\))?)', b)[1], depth + 1)
        if k == 'LF_MODIFIER':
            return self.canon(re.search(r'referent = (0x\w+(?: \(.*?\))?),', b)[1], depth + 1)
        if k == 'LF_ARRAY':
            m = re.search(r'size: (\d+), index type: .*?, element type: (.*)', b)
            return f'[{m[1]}]' + self.canon(m[2], depth + 1)
        if k == 'LF_BITFIELD':
            m = re.search(r'type = (.*), bit offset = (\d+), # bits = (\d+)', b)
            return f'bits<{self.canon(m[1], depth + 1)},{m[2]},{m[3]}>'
        if k == 'LF_PROCEDURE':
            m = re.search(r'return type = (.*), # args = (\d+), param list = (0x\w+)', b)
            a = self.types[int(m[3], 16)][2]
            args = [self.canon(x.split(':')[0] if int(x.split(':')[0].split()[0], 16) >= 0x1000 else re.match(r'(0x\w+ \(.*?\)):|(0x\w+).*', x)[1] or x, depth + 1) for x in a if x.startswith('0x')]
            args = [x for x in args if x != 'none']
            return f'fn({",".join(args)})' + self.canon(m[1], depth + 1)
        if k == 'LF_ENUM':      # hlc records variables of an enumeration type as int
            return self.canon(re.search(r'underlying type: (.*?\))', b)[1])
        if k in ('LF_STRUCTURE', 'LF_UNION'):
            if self.anon(name):
                return self.define(i, depth)
            return {'LF_STRUCTURE': 'struct ', 'LF_UNION': 'union '}[k] + name
        return f'?{k}'

    @staticmethod
    def anon(name):
        return '<unnamed' in name or '<anonymous' in name

    def define(self, i, depth=0):
        k, name, body = self.types[i]
        b = ' '.join(body)
        m = re.search(r'field list: (0x\w+|<no type>)', b)
        if not m or m[1][0] == '<':
            return 'forward'
        out = []
        for f in self.fields(int(m[1], 16)):
            m = re.match(r'- LF_MEMBER \[name = `(.*)`, Type = (.*), offset = (\d+), attrs', f)
            if m:
                out.append(f'{m[1]}@{m[3]}:{self.canon(m[2], depth + 1)}')
                continue
            m = re.match(r'- LF_ENUMERATE \[(.*) = (-?\d+)\]', f)
            if m:
                out.append(f'{m[1]}={int(m[2]) & 0xffffffff}')
            elif 'LF_NESTTYPE' not in f:
                out.append('?' + f)
        sz = re.search(r'sizeof (\d+)', b)
        ut = re.search(r'underlying type: (.*?\))', b)
        return f'{k[3:].lower()}{{{"; ".join(out)}}}' + (sz[1] if sz else '') + (self.canon(ut[1]) if ut else '')

    def fields(self, i, depth=0):
        r = []
        for f in self.types[i][2] if depth < 500 else ['LF_INDEX loop']:
            m = re.match(r'- LF_INDEX continuation = 0x([0-9A-F]+)', f)
            r += self.fields(int(m[1], 16), depth + 1) if m else [f]
        return r

    def definitions(self):
        d = {}
        for i, (k, name, body) in self.types.items():
            if k in ('LF_STRUCTURE', 'LF_UNION', 'LF_ENUM') and not self.anon(name) and 'forward ref' not in ' '.join(body):
                d.setdefault((k, name), set()).add(self.define(i))
        return d

    def symbols(self):
        """[function dict(name, off, size, type, dbg_start, dbg_end, scope)] ; scope = (lo, hi, [(name, type, reg, offset)], [children])"""
        rc, out, err = tool(self.data, '-symbols')
        self._err('-symbols', rc, out, err)
        recs = []
        for l in module0(out).splitlines():
            m = re.match(r'\s+(\d+) \| (S_\w+) \[size = \d+\](?: `(.*)`)?', l)
            if m:
                recs.append([m[2], m[3], '', int(m[1])])
            elif recs:
                recs[-1][2] += ' ' + l.strip()
        funs, stack, loose, open_ = [], [], [], []
        self.procs = {}
        for k, n, b, at in recs:
            if k in ('S_GPROC32', 'S_LPROC32', 'S_GPROC32_ID', 'S_LPROC32_ID', 'S_BLOCK32'):
                m = re.search(r'parent = (\d+), end = (\d+)', b)
                if int(m[1]) != (open_[-1][0] if open_ else 0):
                    self.errors.append(f'the record {k} {n} at {at} has the parent {m[1]}, it is inside of {open_[-1:]}')
                open_.append((at, int(m[2]), f'{k} {n}'))
                if k != 'S_BLOCK32':
                    self.procs[at] = n
            elif k in ('S_END', 'S_PROC_ID_END') and open_:
                if open_[-1][1] != at:
                    self.errors.append(f'the record {open_[-1][2]} at {open_[-1][0]} says that it ends at {open_[-1][1]}, its S_END is at {at}')
                open_.pop()
            if k in ('S_GPROC32', 'S_LPROC32', 'S_GPROC32_ID', 'S_LPROC32_ID'):
                m = re.search(r'addr = (\d+):(\d+), code size = (\d+) type = `?(0x\w+|<no type>)', b)
                d = re.search(r'debug start = (\d+), debug end = (\d+)', b)
                f = dict(name=n, sec=int(m[1]), off=int(m[2]), size=int(m[3]), type=int(m[4], 16) if m[4][0] == '0' else 0, dbg=(int(d[1]), int(d[2])), kind=k, scope=(int(m[2]), int(m[2]) + int(m[3]), [], []))
                funs.append(f)
                stack = [f['scope']]
            elif k == 'S_BLOCK32':
                m = re.search(r'code size = (\d+), addr = (\d+):(\d+)', b)
                s = (int(m[3]), int(m[3]) + int(m[1]), [], [])
                stack[-1][3].append(s)
                stack.append(s)
            elif k in ('S_REGREL32', 'S_LOCAL', 'S_LDATA32', 'S_GDATA32', 'S_LTHREAD32', 'S_GTHREAD32', 'S_BPREL32'):
                t = re.search(r'type ?= ?`?(0x\w+(?: \((?:[^()]|\([^()]*\))*\))?)', b)
                r = re.search(r'register = (\w+), offset = (\d+)', b)
                a = re.search(r'addr = (\d+):(\d+)', b)
                e = (n, t[1] if t else None, k, (r[1], int(r[2]) - (1 << 32) * (int(r[2]) >> 31)) if r else (int(a[1]), int(a[2])) if a else None)
                (stack[-1][2] if stack else loose).append(e)
            elif k in ('S_END', 'S_PROC_ID_END'):
                if not stack:
                    self.errors.append('unbalanced S_END')
                else:
                    stack.pop()
        if stack:
            self.errors.append('scope not closed')
        return funs, loose

    def globals(self):
        rc, out, err = tool(self.data, '-globals')
        self._err('-globals', rc, out, err)
        r, cur = [], None
        for l in out.splitlines():
            m = re.match(r'\s+\d+ \| (S_\w+) \[size = \d+\](?: `(.*)`)?', l)
            if m:
                cur = [m[1], m[2], '']
                r.append(cur)
            elif cur:
                cur[2] += ' ' + l.strip()
        return r

    def procrefs(self):
        """after symbols(): every procedure reference leads to the record of that procedure, and there is one for each"""
        seen = set()
        for k, n, b in self.globals():
            if k in ('S_PROCREF', 'S_LPROCREF'):
                m = re.search(r'module = (\d+), sum name = \d+, offset = (\d+)', b)
                if m[1] == '1':
                    seen.add(n)
                    if self.procs.get(int(m[2])) != n:
                        self.errors.append(f'the reference {k} {n} leads to offset {m[2]} of the module stream: {self.procs.get(int(m[2]))}')
        for n in set(self.procs.values()) - seen:
            self.errors.append(f'there is no reference to the procedure {n}')

    def lines(self):
        """{file: [(section, lo, hi, [(line, offset)])]}"""
        rc, out, err = tool(self.data, '-l')
        self._err('-l', rc, out, err)
        r, f, cur = [], None, None
        for l in module0(out).splitlines():
            m = re.match(r'(\S.*?) \((?:MD5|no checksum|SHA\S*|None).*\)$', l.strip())
            if m:
                f = m[1]
                continue
            m = re.match(r'\s+([0-9A-F]{4}):([0-9A-F]{8})-([0-9A-F]{8}), line/addr entries = (\d+)', l)
            if m:
                cur = (f, int(m[1], 16), int(m[2], 16), int(m[3], 16), [])
                r.append(cur)
                continue
            if cur is not None:
                for a, b in re.findall(r'(\d+) ([0-9A-F]{8})(?: |$)', l):
                    cur[4].append((int(a), int(b, 16)))
        return r

    def misc(self):
        for o in ('-ids', '-publics', '-files', '-section-contribs', '-section-map', '-summary', '-streams', '-string-table', '-il', '-xmi', '-type-stats', '-id-stats', '-type-extras', '-id-extras', '-section-headers', '-sym-stats', '-globals'):
            rc, out, err = tool(self.data, o)
            self._err(o, rc, out, err)
