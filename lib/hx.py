"""Python client for the hx engine: a pool of engine processes, each forking one child per request."""
import os, struct, subprocess, threading, queue, hashlib, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HX_REPO', '/repo')
LIBS = '/opt/hlc/sdk/Lib/10.0.1.0'
CFLAGS = ['--target=x86_64-pc-windows-msvc', '-O0', '-mcx16', '-g', '-gcodeview', '-w', '-Wno-error=implicit-function-declaration',
          '-fms-extensions', '-fno-strict-aliasing', '-ffast-math', '-D_Debug']
LFLAGS = ['/heap:0,0', '/stack:0x100000,0x100000', '/opt:ref', '/nodefaultlib', '/entry:_start', '/subsystem:console']
NJ = min(8, os.cpu_count() or 1)


class EngineError(Exception):
    pass


class Res:
    """kind: 'exit' (code), 'crash' (signal code, rip), 'limit' (harness gave up: err), 'timeout', 'sched'"""
    __slots__ = ('kind', 'code', 'rip', 'addr', 'ret', 'nfault', 'aux', 'out', 'files', 'buf', 'errs', 'log', 'cmds', 'extra')

    def __repr__(self):
        return f'<{self.kind} code={self.code:#x} rip={self.rip:#x} addr={self.addr:#x} out={self.out[-400:]!r} errs={self.errs} files={[(k, len(v)) for k, v in self.files.items()]}>'

    @property
    def ok(self):
        return self.kind == 'exit' and self.code == 0


def tool(cmd, mb=64, secs=60, merge=False, mem=6):
    """Runs an external tool on a file hlc wrote. A malformed file may make the tool print without end: output, time and memory are bounded."""
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        p = subprocess.run(['bash', '-c', f'ulimit -f {mb * 1024} -t {secs} -v {mem << 20} -c 0; exec "$@"', 'tool', *cmd], stdin=subprocess.DEVNULL, stdout=o, stderr=o if merge else e)
        o.seek(0)
        e.seek(0)
        return subprocess.CompletedProcess(cmd, p.returncode, o.read(mb << 20), e.read(1 << 20))


def field(tag, data):
    if isinstance(data, str):
        data = data.encode('latin1')
    return tag.encode() + struct.pack('<I', len(data)) + data


def u64(v):
    return struct.pack('<Q', v & (2**64 - 1))


class Worker:
    def __init__(self, exe, args):
        self.cmd = [exe] + args
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def req(self, op, body):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(struct.pack('<II', op, len(body)) + body)
        self.p.stdin.flush()
        n = self._rd(8)
        n = struct.unpack('<Q', n)[0]
        return parse(self._rd(n))

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise EngineError('engine died')
        return b

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()


def parse(b):
    r = Res()
    k, r.code, r.rip, r.addr, r.ret, r.nfault = struct.unpack_from('<IIQQQQ', b, 0)
    r.aux = struct.unpack_from('<8Q', b, 40)
    used = struct.unpack_from('<Q', b, 104)[0]
    r.kind = {0: 'vanished', 1: 'exit', 2: 'crash', 3: 'limit', 4: 'sched', 5: 'killed'}[k]
    if k == 5:
        r.kind = 'timeout' if r.code in (27, 14) else 'killed'
    r.out = b''
    r.files = {}
    r.buf = b''
    r.errs = []
    r.log = []
    r.cmds = []
    r.extra = {}
    o = 112
    end = 112 + used
    while o + 5 <= end:
        t = b[o:o + 1]
        l = struct.unpack_from('<I', b, o + 1)[0]
        d = b[o + 5:o + 5 + l]
        o += 5 + l
        if t == b'o':
            r.out = d
        elif t == b'f':
            nl = struct.unpack_from('<I', d, 0)[0]
            r.files[d[4:4 + nl].decode('latin1').replace('C:\\w\\', '')] = d[4 + nl:]
        elif t == b'b':
            r.buf = d
        elif t == b'e':
            r.errs.append(d.decode('latin1'))
        elif t == b'l':
            r.log.append(d.decode('latin1'))
        elif t == b's':
            r.cmds.append(d.decode('latin1'))
        else:
            r.extra.setdefault(t.decode('latin1'), []).append(d)
    return r


class Build:
    """Builds the engine and hlc.exe (from REPO's working tree) into a private scratch directory."""

    def __init__(self, variants=('plain',)):
        base = os.environ.get('HX_SCRATCH') or os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run', dir=base)
        self.images = {}
        # snapshot of the tree under test: src and implicit
        self.src = os.path.join(self.dir, 'tree')
        os.makedirs(self.src)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(self.src, 'src'))
        shutil.copytree(os.path.join(REPO, 'implicit'), os.path.join(self.src, 'implicit'))
        procs = []
        self.hx = os.path.join(self.dir, 'hx')
        procs.append(('engine', self._spawn(['gcc', '-O2', '-g', '-w', '-o', self.hx] + [os.path.join(VERIF, 'engine', f) for f in ENGINE_SRC] + ['-lpthread', '-lm'])))
        for v in variants:
            self.images[v] = os.path.join(self.dir, f'hlc_{v}.exe')
            procs.append((v, self._spawn(['bash', '-c', self.script(v)])))
        for n, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                self.cleanup()
                raise EngineError(f'build of {n} failed:\n' + out.decode('latin1')[-3000:])

    def _spawn(self, cmd):
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def script(self, v):
        d = self.dir
        exe = self.images[v]
        obj = exe[:-4] + '.obj'
        libs = f'{LIBS}/um/x64/advapi32.lib {LIBS}/um/x64/kernel32.lib {LIBS}/ucrt/x64/ucrt.lib'
        s = 'set -e; cd %s/tree; ' % d
        if v in ('plain', 'plain2'):
            s += f"clang-18 {' '.join(CFLAGS)} -c src/main.c -o {obj}; lld-link-18 {' '.join(LFLAGS)} /map:{exe}.map /out:{exe} {obj} {libs}; rm -f {obj}"
        elif v == 'tsan':
            s += (f"clang-18 {' '.join(CFLAGS)} -Xclang -fsanitize=thread -mllvm -tsan-distinguish-volatile -mllvm -tsan-instrument-func-entry-exit=1 -c src/main.c -o {obj}; "
                  f"llvm-dlltool-18 -m i386:x86-64 -d {VERIF}/engine/tsan.def -l {d}/tsan.lib; "
                  f"lld-link-18 {' '.join(LFLAGS)} /debug:symtab /out:{exe} {obj} {d}/tsan.lib {libs}; rm -f {obj}")
        return s

    def symbol(self, rva, v='plain'):
        """The function of the compiler at an address (for messages only)."""
        if not hasattr(self, 'syms'):
            import re
            self.syms = sorted((int(a, 16) - 0x140000000, n) for n, a in re.findall(r'^ 0001:[0-9a-f]+\s+(\S+)\s+([0-9a-f]{16})', open(self.images[v] + '.map', errors='replace').read(), re.M))
        import bisect
        i = bisect.bisect(self.syms, (rva, chr(0x10ffff))) - 1
        return f'{self.syms[i][1]}+{rva - self.syms[i][0]:#x}' if i >= 0 and rva < 1 << 24 else hex(rva)

    def args(self, variants=None, mounts=()):
        a = [f'--image={self.images[v]}' for v in (variants or self.images)]
        a.append(f'--mount=C:\\hlc\\implicit={self.src}/implicit')
        a.append('--mount=C:\\sdk=/opt/hlc/sdk')
        a += [f'--mount={v}={r}' for v, r in mounts]
        return a

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


ENGINE_SRC = ['hx.c', 'sched.c', 'step.c']


class Engine:
    def __init__(self, build=None, variants=('plain',), mounts=(), nj=None):
        self.own = build is None
        self.build = build or Build(variants)
        self.nj = nj or NJ
        # the SDK directory exists but is empty, so that start-up does not enumerate it
        self.args = self.build.args(mounts=mounts)
        self.pool = queue.Queue()
        self.all = []
        for _ in range(self.nj):
            w = Worker(self.build.hx, self.args)
            self.all.append(w)
            self.pool.put(w)
        self.ex = ThreadPoolExecutor(self.nj + 2)
        self.stats = {'compiles': 0, 'runs': 0}
        self.lock = threading.Lock()

    def close(self):
        self.ex.shutdown(wait=True)
        for w in self.all:
            w.close()
        if self.own:
            self.build.cleanup()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def request(self, op, body):
        w = self.pool.get()
        try:
            return w.req(op, body)
        finally:
            self.pool.put(w)

    def compile(self, files, args='', image=0, main='C:\\hlc\\hlc.exe', cmd=None, faults=(), log=False, timeout=10, nproc=4, dirs=(), ro=(), sched=None, cwd=None, env=None):
        """files: {name: text/bytes} below C:\\w. args: rest of the command line."""
        with self.lock:
            self.stats['compiles'] += 1
        b = b''
        for n, d in files.items():
            if isinstance(d, str):
                d = d.encode('latin1')
            b += field('F', n.encode('latin1') + b'\0' + d)
        for n, d in dict(ro).items():
            if isinstance(d, str):
                d = d.encode('latin1')
            b += field('f', n.encode('latin1') + b'\0' + d)
        for d in dirs:
            b += field('D', d.encode('latin1') + b'\0')
        b += field('C', cmd if cmd is not None else 'hlc ' + args)
        b += field('I', u64(image)) + field('T', u64(int(timeout * 1000))) + field('P', u64(nproc))
        if log:
            b += field('L', u64(1))
        if faults:
            b += field('Q', b''.join(u64(i) + u64(m) for i, m in faults))
        if sched is not None:
            b += field('S', sched)
        if cwd:
            b += field('W', cwd)
        if env:
            b += field('V', b''.join(u64(x) for x in env))
        return self.request(1, b)

    def run_dll(self, image, export='run', bufsize=1 << 16, inp=b'', base=0, timeout=10, full=False, tls_index=0, step=None, stack=None, extra=b''):
        with self.lock:
            self.stats['runs'] += 1
        b = field('X', image) + field('E', export.encode() + b'\0') + field('N', u64(bufsize)) + field('T', u64(int(timeout * 1000))) + field('B', u64(base)) + field('Y', u64(tls_index))
        if inp:
            b += field('A', inp)
        if full:
            b += field('M', u64(1))
        if stack:
            b += field('K', u64(stack))
        if step:
            b += field('G', u64(step[0])) + field('g', u64(step[1]))
        return self.request(2, b + extra)

    def run_exe(self, image, cmd='a.exe', base=0, timeout=10, files=None, stack=None):
        with self.lock:
            self.stats['runs'] += 1
        b = field('X', image) + field('C', cmd) + field('T', u64(int(timeout * 1000))) + field('B', u64(base))
        for n, d in (files or {}).items():
            b += field('F', n.encode('latin1') + b'\0' + d)
        return self.request(3, b)

    def map(self, fn, items):
        return list(self.ex.map(fn, items))
