"""Common frame of a check: engine, reference, accounting, known findings, evidence, verdict."""
import os, sys, json, time, struct, re, traceback, shutil, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hx
from hx import Engine, Build, EngineError, VERIF, REPO
from ref import Ref, RefError


def load_known(prop):
    """known-findings.txt: lines 'finding: property=<id> key=<key> :: <what>' and 'fixed: property=<id> <commit> <what>' (the latter suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self, prop, level, variants=('plain',), need_ref=True, mounts=()):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.assumptions = []
        self.lock = threading.Lock()
        self.distinct = set()
        self.build = Build(variants)
        self.e = Engine(self.build, mounts=mounts)
        self.ref = Ref(self.build.dir) if need_ref else None
        self.maxviol = 20
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay')

    thorough = property(lambda s: s.tier == 'thorough')

    def elapsed(self):
        return time.time() - self.t0

    def count(self, n=1, **kw):
        with self.lock:
            self.cov['evaluations'] += n
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def seen(self, key):
        with self.lock:
            self.distinct.add(key)

    def sample(self, s, cap=6):
        with self.lock:
            if len(self.cov['samples']) < cap:
                self.cov['samples'].append(s)

    def violation(self, key, what, replay=None):
        """key identifies the failing input; replay: dict name->text written out."""
        with self.lock:
            if key in self.known:
                if key not in self.known_hit:
                    self.known_hit[key] = what
                    print(f'KNOWN-FINDING: property={self.prop} {self.known[key]}', flush=True)
                return
            if any(v[0] == key for v in self.violations):
                return
            n = len(self.violations)
            self.violations.append((key, what))
            if not n and not os.environ.get('HX_KEYS'):
                # a broken compiler can make everything after this slow: the verdict is known, so end soon
                t = threading.Timer(240, self.give_up)
                t.daemon = True
                t.start()
            if os.environ.get('HX_KEYS'):
                with open(os.environ['HX_KEYS'], 'a') as f:
                    f.write(key + '\t' + what.replace('\n', ' | ')[:600] + '\n')
            if n >= self.maxviol:
                return
            d = os.path.join(self.replay_dir, f'{self.prop}-{n}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'README.txt'), 'w') as f:
                f.write(f'property {self.prop}\nkey {key}\n{what}\n')
            for k, v in (replay or {}).items():
                p = os.path.join(d, k.replace('\\', '_').replace(':', '_').replace('/', '_'))
                with open(p, 'wb') as f:
                    f.write(v if isinstance(v, bytes) else str(v).encode('latin1', 'replace'))
            print(f'VIOLATION property={self.prop} replay={d}', flush=True)
            print('  ' + key + ': ' + what[:600].replace('\n', '\n  '), flush=True)

    def give_up(self):
        try:
            print('stopping early: counterexamples found, see above', flush=True)
            self.finish()
            sys.stdout.flush()
            self.e.close()
            self.build.cleanup()
        finally:
            os._exit(1)

    def finish(self):
        self.cov['distinct_nontrivial'] = max(self.cov.get('distinct_nontrivial', 0), len(self.distinct))
        self.cov['compiles'] = self.e.stats['compiles']
        self.cov['image_runs'] = self.e.stats['runs']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if not self.cov['samples']:
            self.cov['samples'] = ['(none)']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop} {self.tier}: {self.cov["evaluations"]} evaluations, {self.cov["distinct_nontrivial"]} distinct, {len(self.violations)} violations, {len(self.known_hit)} known, {ev["wall_s"]} s')
        return 1 if self.violations else 0

    def close(self):
        try:
            self.e.close()
        finally:
            self.build.cleanup()


HEAD = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
static u64 *o_;
#define O(x) (*o_++ = (u64)(x))
static void OF(float f){ union { float f; u32 u; } x; x.f = f; *o_++ = x.u; }
static void OD(double f){ union { double f; u64 u; } x; x.f = f; *o_++ = x.u; }
'''


class Item:
    """One test: decl (file scope), body (statements, writing up to nobs observations with O/OF/OD), key."""
    __slots__ = ('key', 'decl', 'body', 'nobs', 'expect', 'skip')

    def __init__(self, key, body, decl='', nobs=8, expect=None):
        self.key = key
        self.body = body
        self.decl = decl
        self.nobs = nobs
        self.expect = expect


def render(items, head=HEAD, extra=''):
    s = [head, extra]
    off = 0
    calls = []
    for i, it in enumerate(items):
        if it.decl:
            s.append(it.decl)
        s.append(f'static void t{i}(void){{\n{it.body}\n}}')
        calls.append(f'if(w == {i} || w == ~0ull){{ o_ = buf + {off}; t{i}(); if(o_ - (buf + {off}) > {it.nobs}) *(volatile int *)0x51 = 1; }}')
        off += it.nobs
    s.append('__declspec(dllexport) u64 run(u64 *buf, u64 n){ u64 w = buf[0]; buf[0] = 0;\n' + '\n'.join(calls) + f'\nreturn {off * 8}; }}\n')
    return '\n'.join(s), off


def obs(items, buf, vals):
    out = []
    o = 0
    for it in items:
        out.append(buf[o:o + it.nobs * 8])
        o += it.nobs * 8
    return out


class Diff:
    """Compiles batches of Items with hlc and with the reference, runs both, compares item by item."""
    def __init__(self, ctx, args='a.c /dll /no_entry /no_stdlib /quiet /no_debug /out a.dll', ref_opt='-O0', head=HEAD, ref_flags=(), batch=60, hlc_pre=None, ref_pre=None, ro=None, seen=True):
        self.c = ctx
        self.args = args
        self.ref_opt = ref_opt
        self.head = head
        self.batch = batch
        self.ref_flags = ref_flags
        self.hlc_pre = hlc_pre or ''
        self.ref_pre = ref_pre or ''
        self.ro = ro or {}
        self.seen = seen

    def hlc(self, items, extra=''):
        src, tot = render(items, self.hlc_pre + self.head, extra)
        r = self.c.e.compile({'a.c': src, **self.ro}, self.args)
        return src, tot, r

    def run(self, items, extra=''):
        batches = [items[i:i + self.batch] for i in range(0, len(items), self.batch)]
        self.c.e.map(lambda b: self._batch(b, extra), batches)

    def expected(self, items, extra=''):
        if all(it.expect is not None for it in items):
            return [b''.join(struct.pack('<Q', v & (2**64 - 1)) for v in it.expect) + b'\0' * (8 * (it.nobs - len(it.expect))) for it in items]
        src, tot = render(items, self.ref_pre + self.head, extra)
        try:
            dll = self.c.ref.dll(src, self.ref_opt, self.ref_flags, self.ro)
        except RefError as e:
            raise EngineError('reference rejected a generated program (generator error):\n' + str(e)[-1500:])
        r = self.c.e.run_dll(dll, inp=hx.u64(-1), bufsize=tot * 8 + 64, timeout=20)
        if r.kind != 'exit':
            # isolate
            for i, it in enumerate(items):
                r1 = self.c.e.run_dll(dll, inp=hx.u64(i), bufsize=tot * 8 + 64, timeout=20)
                if r1.kind != 'exit':
                    raise EngineError(f'reference program crashed (generator error) item {it.key}: {r1}\n{it.decl}\n{it.body}')
            raise EngineError(f'reference program crashed: {r}')
        return obs(items, r.buf, None)

    def bad(self, it, what, extra=''):
        src, _ = render([it], self.hlc_pre + self.head, extra)
        self.c.violation(it.key, what, {'a.c': src, **self.ro, 'cmdline.txt': 'hlc ' + self.args})

    def _batch(self, items, extra):
        if len(self.c.violations) > 30 and not os.environ.get('HX_KEYS'):
            return   # enough counterexamples
        self._batch2(items, extra)

    def _batch2(self, items, extra):
        src, tot, r = self.hlc(items, extra)
        dll = r.files.get('a.dll')
        if not (r.kind == 'exit' and r.code == 0 and dll):
            if len(items) > 1:
                h = len(items) // 2
                self._batch2(items[:h], extra)
                self._batch2(items[h:], extra)
                return
            self.expected(items, extra)   # make sure the program is valid for the reference
            if r.kind == 'timeout':
                r = self.c.e.compile({'a.c': src, **self.ro}, self.args, timeout=40)
            self.c.count(1)
            self.bad(items[0], f'the compiler did not compile a valid program: {r.kind} {r.code:#x} {r.out[-700:].decode("latin1")}', extra)
            return
        exp = self.expected(items, extra)
        r = self.c.e.run_dll(dll, inp=hx.u64(-1), bufsize=tot * 8 + 64)
        self.c.count(len(items))
        if self.seen:
            for it, e in zip(items, exp):
                if any(e):
                    self.c.seen(it.key)
        if r.kind == 'exit':
            got = obs(items, r.buf, None)
        else:
            got = []
            o = 0
            for i, it in enumerate(items):
                r1 = self.c.e.run_dll(dll, inp=hx.u64(i), bufsize=tot * 8 + 64, full=True)
                got.append(r1.buf[o:o + it.nobs * 8] if r1.kind == 'exit' else f'run: {r1.kind} {r1.code} rip={r1.rip:#x} addr={r1.addr:#x} {r1.errs}')
                o += it.nobs * 8
            if all(isinstance(g, bytes) for g in got) and got == exp:
                # only fails in combination: report on the whole batch
                self.c.violation('batch:' + items[0].key, f'batch crashes: {r}', {'a.c': src})
                return
        for it, g, e in zip(items, got, exp):
            if g != e:
                if isinstance(g, bytes):
                    gv = struct.unpack(f'<{it.nobs}Q', g)
                    ev = struct.unpack(f'<{it.nobs}Q', e)
                    w = 'observations differ:\n got      ' + ' '.join(f'{v:x}' for v in gv) + '\n expected ' + ' '.join(f'{v:x}' for v in ev)
                else:
                    w = g
                self.bad(it, w + f'\n{it.decl}\n{it.body}', extra)


def main(prop, level, body, **kw):
    ctx = None
    try:
        ctx = Ctx(prop, level, **kw)
        body(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if ctx and ctx.violations:
            ctx.finish()
            rc = 1
    finally:
        if ctx:
            ctx.close()
    sys.stdout.flush()
    os._exit(rc)
