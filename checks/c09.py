"""C09: every interleaving of the compiler's threads within a deviation bound, on the real compiler under a controlled scheduler."""
import bisect, subprocess, sys, os, struct as st, threading, collections, re
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import pe
from check import main
from hx import EngineError


def spec(flags, dev=(), hot=(), maxp=0):
    return st.pack('<III', flags, maxp, len(dev)) + b''.join(st.pack('<II', *d) for d in dev) + st.pack('<I', len(hot)) + b''.join(st.pack('<I', h) for h in hot)


class Tr:
    __slots__ = ('d', 'n', 'f')

    def __init__(self, d):
        self.d, self.n, self.f = d, len(d) // 16, None

    def __getitem__(self, i):   # tid, kind, enabled mask, next, pc, addr
        return st.unpack_from('<BcBBIQ', self.d, 16 * i)

    def freq(self):
        if self.f is None:
            self.f = collections.Counter(struct_pc for _, struct_pc in st.iter_unpack('<4sI8x', self.d))
        return self.f


class Program:
    def __init__(self, key, files, args='/dll /no_entry /no_stdlib /quiet /out a.dll', extra='', ok=True, threads=2, out='a.dll', bound=(1, 2), cap=(10**9, 10**9), no_run=False, loose=False):
        self.loose = loose   # which of two conflicting declarations is the first one depends on the schedule
        self.key, self.files, self.args, self.ok, self.threads, self.out, self.bound, self.cap, self.no_run = key, files, args + ' ' + extra, ok, threads, out, bound, cap, no_run


class Explorer:
    def __init__(self, ctx, p):
        self.c, self.p = ctx, p
        self.srcs = ' '.join(f for f in p.files if f.endswith('.c'))
        self.hot = set()
        self.closed = set()
        self.pol = 0
        self.images = {}
        self.runs = 0
        self.pruned = 0
        self.lock = threading.Lock()
        self.states = collections.Counter()
        r = ctx.e.compile(p.files, f'{self.srcs} {p.args} /thread_count 1', image=1)
        self.want = self.observe(r)
        if (r.kind, r.code) != ('exit', 0 if p.ok else 1):
            ctx.violation(p.key + '/single', f'one thread: {r.kind} {r.code} {r.out[-300:].decode("latin1")}', p.files)
            self.want = None
        elif p.ok and not p.no_run and (self.want[2] is None or self.want[2][0] != 'exit' or not any(self.want[2][2])):
            raise EngineError(f'{p.key}: the program does not run: {self.want}')

    def observe(self, r):
        out = sorted(set(re.sub(rb'\r', b'', r.out).split(b'\n')) - {b''}) if not self.p.ok else r.out
        if self.p.loose:
            out = sorted(re.sub(rb"^C:/w/.\.c\(\d+,\d+\): Error at '[^']*': \[\d\]|(?<=type )'.*'", b'', l) for l in re.sub(rb'\r', b'', r.out).split(b'\n'))
        img = r.files.get(self.p.out)
        obs = None
        if img is not None and self.p.out.endswith('.dll') and not self.p.no_run:
            h = hash(img)
            obs = self.images.get(h)
            if obs is None:
                q, errs = pe.check(img)
                x = self.c.e.run_dll(img)
                obs = self.images[h] = (x.kind, x.ret, x.buf[:x.ret] if x.kind == 'exit' else x.rip, tuple(errs))
        elif img is not None:
            obs = 'written'
        return (r.kind, r.code, obs, out)

    def run(self, dev, detect=False):
        r = self.c.e.compile(self.p.files, f'{self.srcs} {self.p.args} /thread_count {self.p.threads}', image=0, sched=spec((3 if detect else 2) | 4 * self.pol, dev, sorted(self.hot)), timeout=int(os.environ.get('C09T','20')))
        self.runs += 1
        self.c.count()
        t = r.extra.get('t')
        new = st.unpack(f'<{len(r.extra["h"][0]) // 4}I', r.extra['h'][0]) if 'h' in r.extra else ()
        if r.kind == 'limit':
            raise EngineError(f'{self.p.key} {dev}: {r.errs}')
        o = self.observe(r)
        if r.kind == 'sched':
            if 'deviation not possible' in r.errs:
                raise EngineError(f'{self.p.key} {dev}: not reproducible')
            self.bad(dev, r, ' '.join(r.errs), t)
        elif o[:3] != self.want[:3] or o[3] != self.want[3]:
            self.bad(dev, r, f'{o[0]} {o[1]:#x} rip {r.rip:#x} {r.out[-300:].decode("latin1")!r}, expected {self.want[0]} {self.want[1]}' if o[:2] != self.want[:2] else f'the result differs: {str(o[2])[:200]} {o[3][-300:] if o[3] != self.want[3] else ""}, with one thread {str(self.want[2])[:200]} {self.want[3][-300:] if o[3] != self.want[3] else ""}', t)
        return (Tr(t[0]) if t else None), set(new)

    def bad(self, dev, r, what, t):
        s = ''
        if t:
            t = Tr(t[0])
            prev = None
            for i in range(t.n):
                tid, kind, m, nx, pc, addr = t[i]
                if nx != tid:
                    s += f'point {i}: thread {tid} {kind.decode()} at {pc:#x} {addr:#x} -> thread {nx}\n'
        with self.lock:
            k = re.sub(r'0x[0-9a-f]+|\d+', '#', what)[:60]
            self.states['bad ' + k] += 1
        self.c.violation(f'{self.p.key}/{self.pol}/{"+".join(f"{i}:{t_}" for i, t_ in dev) or "default"}', what, {**self.p.files, 'args.txt': f'{self.srcs} {self.p.args} /thread_count {self.p.threads}', 'schedule.txt': f'default {self.pol} ' + repr(list(dev)) + '\n' + s})

    def closure(self, t):
        """all plain accesses of the (small) functions that contain atomic or volatile accesses"""
        fs = self.c.functions
        out = set()
        for pc in {pc for kind, pc in st.iter_unpack('<xc2xI8x', t.d) if kind in b'av'} - self.closed:
            self.closed.add(pc)
            k = bisect.bisect(fs, pc + 1) - 1
            if k >= 0 and k + 1 < len(fs) and fs[k + 1] - fs[k] < 2500:
                out |= set(range(fs[k], fs[k + 1]))
        return out

    def discover(self):
        """race detection on the default schedule and on a spread of deviations until no new racing instruction appears"""
        for rnd in range(4):
            before = len(self.hot)
            t, new = self.run((), True)
            self.hot |= new
            devs = []
            if t:
                pts = range(0, t.n, max(1, t.n // (96 if self.c.thorough else 32)))
                for i in pts:
                    tid, kind, m, nx, pc, addr = t[i]
                    for u in range(8):
                        if m >> u & 1 and u != nx:
                            devs.append(((i, u),))
            if rnd == 0 and new:
                continue   # the numbering of the points changes with the set
            for _, n in self.c.e.map(lambda d: self.run(d, True), devs):
                self.hot |= n
            if len(self.hot) == before:
                break

    def pairs(self, level, cap):
        """deviations (stop A before operation x, then stop B before operation y and go back to A): one of each (x, y), the rarest y first"""
        best = {}
        for dev, tr in level:
            i, u = dev[-1]
            a, _, m, _, pa, _ = tr[i]
            g = tr.freq()
            for j in range(i + 1, tr.n):
                tid, kind, m, nx, pb, _ = tr[j]
                if tid != u:
                    break
                if m >> a & 1 and nx != a:
                    best.setdefault((a, pa, u, pb), []).append((g[pb], i, dev + ((j, a),)))
        out = []
        for l in best.values():
            l.sort()
            k = max(1, (len(l) + 5) // 6)
            out += [(n, w, d) for n, (w, _, d) in enumerate(l[::-1][::k])]
        return [d for _, _, d in sorted(out)][:cap]

    def expand(self, chains):
        """every deviation of the chains, except those whose reordered operations commute with those of the next deviation of the chain"""
        nxt = []

        def conflict(kind, addr, u, t, i):
            for j in range(i + 1, t.n):
                tid, k, m, nx, pc, a = t[j]
                if tid != u:
                    return False
                if a >> 3 == addr >> 3 and not (kind == b'v' and k == b'v'):
                    return True
            return False

        def chain(c):
            dev, tr, u, ids = c
            last = None
            for i in reversed(ids):
                tid, kind, m, nx, pc, addr = tr[i]
                if last and last[0] == i + 1 and kind in b'avp' and nx == tid and tr[i + 1][0] == tid and not conflict(kind, addr, u, last[1], last[2]):
                    self.pruned += 1
                    last = (i, last[1], last[2])
                    continue
                t, _ = self.run(dev + ((i, u),))
                last = (i, t, i) if t else None
                if t:
                    with self.lock:
                        nxt.append((dev + ((i, u),), t))
        self.c.e.map(chain, chains)
        return sorted(nxt, key=lambda x: x[0])

    def chains(self, level):
        out = []
        for dev, tr in level:
            lo = dev[-1][0] + 1 if dev else 0
            for u in range(8):
                ids = [i for i in range(lo, tr.n) if tr[i][2] >> u & 1 and tr[i][3] != u]
                for k in range(0, len(ids), 24):
                    out.append((dev, tr, u, ids[k:k + 24]))
        return out

    def explore(self):
        if not self.want:
            return
        th = self.c.thorough
        info = []
        self.discover()
        t, _ = self.run(())
        if t:
            self.hot |= self.closure(t)
        for attempt in range(3):
            level = None
            prefix = ()
            for basei in 0, 1:
                base, _ = self.run(prefix)
                if not base:
                    return
                if basei == 0 or prefix:
                    lv = self.expand(self.chains([(prefix, base)]))
                    # instructions that only race with more deviations become scheduling points too
                    pr = self.pairs(lv, 10**9)
                    new = set().union(*(self.closure(t) for _, t in lv))
                    for _, n in self.c.e.map(lambda d: self.run(d, True), pr[:1500 if th else 60]):
                        new |= n
                    if basei == 0:
                        levels, pairs, bases, all_new = [lv], [pr], [base], new
                        # the second default schedule: the one deviation that lets the threads run side by side for the longest time
                        d, t = max(lv, key=lambda x: (x[1].n, x[0]))
                        if t.n > base.n * 1.2:
                            prefix = d
                    else:
                        levels.append(lv), pairs.append(pr), bases.append(base)
                        all_new |= new
            if not all_new - self.hot:
                break
            self.hot |= all_new
        for k, (base, level, pr) in enumerate(zip(bases, levels, pairs)):
            full = 1
            cap = self.p.cap[1] if th else self.p.cap[0]
            if (self.p.bound[1] if th else self.p.bound[0]) > 1:
                ch = self.chains(level)
                total = sum(len(c[3]) for c in ch)
                if total > cap * 6:
                    # the chains that pass the rarest operations first (not exhaustive at this depth)
                    def rare(c):
                        freq = c[1].freq()
                        return min(freq[c[1][i][4]] for i in c[3])
                    ch.sort(key=rare)
                    n = 0
                    for j, x in enumerate(ch):
                        n += len(x[3])
                        if n > cap * 3:
                            ch = ch[:j + 1]
                            break
                else:
                    full = 2
                self.expand(ch)
            if full < 2:
                # the deepest part, in rounds: a slow machine runs fewer of them, and the evidence says how many
                todo = pr[1500 if th else 60:][:30000 if th else 1600]
                done = len(pr[:1500 if th else 60])
                for j in range(0, len(todo), 400):
                    if not th and self.c.elapsed() > 330:
                        break
                    self.c.e.map(self.run, todo[j:j + 400])
                    done += len(todo[j:j + 400])
            info.append({'fixed first deviations': k, 'points': base.n, 'exhaustive up to deviations': full, 'pairs of switching operations': len(pr), 'of them run': len(pr) if full > 1 else done})
        self.c.seen(self.p.key)
        self.c.cov.setdefault('programs', {})[self.p.key] = {'threads': self.p.threads, 'plain accesses that are scheduling points': len(self.hot), 'schedules': self.runs, 'equivalent schedules skipped': self.pruned, 'default schedules': info}


H = 'typedef unsigned long long u64;\n'
RUN = '__declspec(dllexport) u64 run(u64 *buf, u64 n){ u64 *o = buf;\n%s\nreturn (u64)((char *)o - (char *)buf); }\n'


def programs(thorough):
    P = []
    def add(key, a, b, run, **kw):
        files = {'a.c': H + a + RUN % run, 'b.c': H + b}
        P.append(Program(key, {**files, **kw.pop('more', {})}, **kw))
    # names of another compilation unit: types, functions and enumerators may not be there yet
    add('cross', 'struct S { int a; struct T *t; }; struct T { u64 v; struct S *s; }; int f(struct S *s); extern int g; static int h(int x){ return x + g; }\n',
        'int f(struct S *s){ struct T t = { 40 + s->a, s }; g += (int)t.v; return (int)t.s->a; }\nint g = 7;\n',
        'struct S s = { 5 }; *o++ = f(&s); *o++ = g; *o++ = h(3);')
    add('shared', 'struct P { int x, y; }; enum E { A, B = 5, C }; typedef struct P Pt; union U { float f; unsigned u; };\nstatic int sum(Pt p){ return p.x + p.y * C; }\nint g2(void);\n',
        'struct P { int x, y; }; enum E { A, B = 5, C }; typedef struct P Pt; union U { float f; unsigned u; };\nstatic int sum(Pt p){ return p.x - p.y * B; }\nint g2(void){ Pt p = { 100, C }; union U u; u.f = 1.0f; return sum(p) + (u.u >> 20); }\n',
        'Pt p = { 1, 2 }; *o++ = sum(p); *o++ = g2();')
    add('merge', 'int t1; int t2; extern int t3; int t4 = 9; int arr[]; extern int arr2[]; static int s1 = 3; int q(void); extern int q(void); int *pa = &t3;\n',
        'int t1 = 4; int t2; int t3 = 6; extern int t4; int arr[4] = {1,2,3,4}; int arr2[3] = {7}; static int s1 = 5; int q(void){ return s1 + t4 + t1 + (int)sizeof(arr2); }\n',
        't2 = 8; *o++ = t1; *o++ = t2; *o++ = t3; *o++ = t4; *o++ = arr[2]; *o++ = arr2[0]; *o++ = q(); *o++ = s1; *o++ = *pa;')
    add('misc', '#pragma comment(lib, "C:/sdk/Lib/10.0.1.0/um/x64/kernel32.lib")\n#include "h.h"\nstatic double k1 = 2.5; char *st = "shared string"; __declspec(thread) int tl = 3; __declspec(dllexport) int ex1 = 3; int two(void); __declspec(dllimport) unsigned GetCurrentProcessId(void);\n',
        '#pragma comment(lib, "C:/sdk/Lib/10.0.1.0/um/x64/kernel32.lib")\n#include "h.h"\nstatic double k1 = 3.5; char *st2 = "shared string"; __declspec(thread) int tl2 = 4; __declspec(dllexport) int ex2(void){ return 77; }\n__declspec(dllimport) unsigned GetCurrentProcessId(void); int two(void){ return ex2() + in(4) + st2[3] + (int)(k1 * 2.0) + (GetCurrentProcessId() != 0); }\n',
        '*o++ = two() + in(9) + st[2] + ex1; *o++ = (u64)(k1 * 4.0); *o++ = V;',
        more={'h.h': '#pragma once\n#define V 12\nstatic inline int in(int x){ return x * V; }\nextern char *st; extern char *st2; int two(void);\n'}, )
    # the table grows while names that are already in it are declared again
    if thorough:
        n, m = 98, 20
        da = ' '.join(f'int ga{i} = {i + 3};' for i in range(n)) + ' ' + ' '.join(f'extern int gb{i};' for i in range(m - 10, m))
        db = ' '.join(f'extern int ga{i}; int gb{i} = {i + 9}; static int gc{i}; int gd{i};' for i in range(m))
        add('growthg', f'{da}\nu64 sb(void);\n', f'{db}\nu64 sb(void){{ u64 r = 0;' + ' '.join(f'r = r * 5 + ga{i};' for i in range(0, m, 6)) + ' return r; }\n',
            '*o++ = sb(); u64 r = 0;' + ' '.join(f'r = r * 3 + gb{i};' for i in range(m - 10, m)) + '*o++ = r;', bound=(1, 2), cap=(0, 30000))
    n, m = 54, 6
    add('growth', ' '.join(f'static int s{i}{" = 2" if i >= m else ""};' for i in range(n)) + '\n' + ' '.join(f'static int s{i} = {i + 3}; static int n{i}; static int p{i}; static int q{i};' for i in range(m)) + '\n', 'int unused;\n',
        'u64 r = 0;' + ' '.join(f'r = r * 5 + s{i} + n{i} + p{i} + q{i};' for i in range(m)) + '*o++ = r;', bound=(1, 2), cap=(0, 30000))
    add('sleep', ''.join(f'struct A{i} {{ struct B{i} b; int v; }};' for i in range(3)) + 'enum { KA = 2 + KB }; int ta[KA]; int tot(void);\n',
        ''.join(f'struct B{i} {{ int x[{i + 1}]; }};' for i in range(3)) + 'enum { KB = 3 + sizeof(struct B1) }; int tot(void){ return sizeof(struct A0) + sizeof(struct A1) * 10 + sizeof(struct A2) * 100 + KA; }\n',
        '*o++ = tot(); *o++ = sizeof(ta); struct A2 x = { { { 1, 2, 3 } }, 4 }; *o++ = x.b.x[2] + x.v;')
    add('reverse', 'struct A0 { struct B0 b; }; struct A1 { struct B1 b; struct A0 a; }; int k = sizeof(struct A0) + 10 * sizeof(struct A1); int tot(void);\n',
        'struct B1 { int x[2]; }; struct B0 { int x; }; int tot(void){ return sizeof(struct A1) + k; }\n', '*o++ = tot();', threads=2)
    add('three', 'int fb(int); int fc(int); struct X; struct Y { struct X *x; int v; }; extern struct Y gy;\n', 'int fb(int a){ return fc(a) + gy.v; } struct Y gy = { &gx, 11 };\n',
        '*o++ = fb(1); *o++ = fc(2); *o++ = gy.x->w;', more={'c.c': 'struct X { int w; }; struct X gx = { 6 }; int fc(int a){ return a * 2 + gx.w; }\n'}, threads=3, cap=(0, 30000))
    add('object', 'int f(struct S *s); struct S { int a; }; extern int g; char *s0 = "x";\n', 'int g = 7; char *s1 = "x"; int f(struct S *s){ return s->a + g; }\n', 'struct S s = { 5 }; *o++ = f(&s) + *s0;',
        args='/obj /quiet /out a.obj', out='a.obj', no_run=True)
    # ill-formed programs: the same diagnostics in every schedule
    add('errors', 'int f(int a){ return a + undeclared1; }\n', 'int g(int a){ return a + undeclared2; }\n', '*o++ = f(1);', ok=False)
    add('unresolved', 'struct U1 { struct Missing m; }; int h(void);\n', 'int h(void){ struct Missing2 m; return 1; } int k = sizeof(NoType);\n', '*o++ = h();', ok=False)
    add('redef', 'int f(void){ return 1; } int v = 3;\n', 'int f(void){ return 2; } int v = 4;\n', '*o++ = f() + v;', ok=False, loose=True)
    add('mismatch', 'int f(int, int); extern int v; typedef int T; struct Q { int a; };\n', 'float f(char *a){ return 1; } float v; typedef float T; struct Q { char a; };\n', '*o++ = f(1, 2);', ok=False, loose=True)
    return P


def body(c):
    c.cov['rule'] = 'a schedule is the default one (a thread runs until it blocks or only rereads unchanged values) plus at most the stated number of deviations at scheduling points; every deviation at every point is explored unless the reordered operations commute'
    only = os.environ.get('C09', '').split(',') if os.environ.get('C09') else None
    c.functions = sorted(int(l.split()[0], 16) - 0x140000000 for l in subprocess.run(['llvm-nm-18', c.build.images['tsan']], stdout=-1, text=True).stdout.split('\n') if len(l.split()) == 3 and l.split()[1] in 'tT')
    for p in programs(c.thorough):
        if only and p.key not in only:
            continue
        t = c.elapsed()
        x = Explorer(c, p)
        x.explore()
        c.sample(f'{p.key}: {c.cov.get("programs", {}).get(p.key)}')
        if os.environ.get('HX_V'):
            print(p.key, round(c.elapsed() - t, 1), c.cov.get('programs', {}).get(p.key), dict(x.states), flush=True)


if __name__ == '__main__':
    main('C09', 'exploration', body, variants=('tsan', 'plain'), need_ref=False)
