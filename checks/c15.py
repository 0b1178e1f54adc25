#!/usr/bin/env python3
"""C15: the output is a function of the inputs.

The environment of a compilation is modelled by the things it can influence without being an input: where memory is placed (by the system, ascending,
descending, widely spaced), what uninitialised stack and heap memory contains, where the compiler itself is loaded, clocks, process id, time of day,
how many processors there are, and what an earlier compilation left in the output files. The product of these is enumerated for a core of programs and output kinds; a wide
corpus (the inputs of the project's own tests among them) is compiled under a covering set. Every file written and everything printed has to be byte-identical, except for
the documented time stamps and the GUID that identifies a PDB (it must be the same in the image and the PDB).
Then histories: every sequence of compilations up to a length in one directory; each one has to give what it gives in an empty directory.
Multi-threaded compilations run under the controlled scheduler, so that the schedule is an input."""
import os, sys, struct, re, itertools, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from check import main
from hx import REPO

FEATURES = r'''
#pragma comment(lib, "C:/sdk/Lib/10.0.1.0/um/x64/kernel32.lib")
typedef struct point { int x, y; union { float f; unsigned bits : 7; }; struct { char c; long long l; } in[2]; } point;
enum colour { RED, GREEN = 5, BLUE };
__declspec(dllimport) void Sleep(int);
__declspec(dllimport) unsigned GetCurrentProcessId(void);
static const char *names[] = { "red", "green", "blue", 0 };
int bss[1000]; _Alignas(64) char aligned[3] = "ab"; __declspec(selectany) int any = 3; __declspec(thread) int tls = 7;
double dd = 2.5; float ff[3] = { 1, 2.5f }; long long ll = -1;
point pts[] = { { 1, 2, .in[1] = { 'c', 4 } }, [3] = { .y = 9, .bits = 5 } };
static int cmp(const void *a, const void *b){ return *(int *)a - *(int *)b; }
int (*table[])(const void *, const void *) = { cmp, 0, cmp };
static point byval(point p, int n, double d, ...){ p.x += n; p.f = (float)d; return p; }
static int sw(int a){ switch(a){ case 1: return 3; case 5: case 6: return 2; case RED: goto out; default: return -1; } out:; return 77; }
static double fl(double a, float b, int c){ double r = a; for(int i = 0; i < c; i++){ r = r * b + i; if(r > 1e9) break; else if(r < 0) continue; } return r; }
#define CAT(a, b) a ## b
#define STR(...) #__VA_ARGS__
#define REP(x) x x x x
static int CAT(fu, nc)(char *s){ int n = 0; REP(n += *s;) while(*s++) n++; do n--; while(n > 1000); return n + sizeof(STR(a, b "c")); }
__declspec(dllexport) int run(int *b){ char local[100] = "hello"; point p = byval(pts[0], b[0], fl(1.5, 2, 3)); Sleep(0); int arr[3] = { 3, p.x };
  __try { tls += sw(b[0]); } __except(1) { tls = 0; } return p.x + func(local) + (names[1] != 0) + arr[1] + (int)GetCurrentProcessId() * 0 + _Generic(ff[0], float: 1, default: 2) + __LINE__; }
__declspec(dllexport) int exported_data[2] = { 1, 2 };
'''
UNITS = {'a.c': '#include "h.h"\n' + FEATURES + 'int g1(int a){ return g2(a) + shared; }\n', 'b.c': '#include "h.h"\nint g2(int a){ static int n; return h3(a) + ++n; }\nint shared = 4; struct later { struct fwd *f; int q; }; struct fwd { int z; };\n',
         'c.c': '#include "h.h"\nint h3(int a){ inl(a); return a * 3 + shared; }\n' + ''.join(f'struct s{i} {{ int a{i}; struct s{i} *n; }}; int v{i}[{i + 1}] = {{ {i} }}; static int u{i}(struct s{i} *p){{ return p->a{i} + v{i}[0]; }} int w{i}(struct s{i} *p){{ return u{i}(p); }}\n' for i in range(60)),
         'h.h': '#pragma once\nint g1(int), g2(int), h3(int); extern int shared; static inline int inl(int a){ return a + 2; } typedef struct fwd fwd;\n'}
ERR = {'a.c': '#include "h.h"\nint a(void){ return undeclared + 1; }\nint b(int *p){ float f = p; return p.x; }\nstruct s { int a; }; int c(struct s s){ return s.nope; }\nint d(void){ unknown(); }\n', 'h.h': 'int x(int)\n;\n'}
WARN = {'a.c': 'int f(int a){ }\nint g(void){ int unused; unsigned char c = 300; return f(1) + c; }\n__declspec(dllexport) int run(int *b){ if(b[0] = g()) return 1; return 0; }\nstatic int never(void){ return 1; }\n'}
EXE = {'a.c': 'int puts(const char *); int printf(const char *, ...);\n' + FEATURES + 'int main(int argc, char **argv){ int b[2] = { argc }; printf("%d %s\\n", run(b), argv[0]); return 0; }\n'}
DLLO = '/dll /no_entry /no_stdlib '


def scenarios():
    S = []
    for k, files, args in (('feat', {'a.c': FEATURES}, 'a.c'), ('units', UNITS, 'a.c b.c c.c'), ('warn', WARN, 'a.c')):
        for d in ('', '/no_debug '):
            S.append((f'{k}/dll{d.strip()}', files, f'{args} {DLLO}{d}/out a.dll'))
            S.append((f'{k}/obj{d.strip()}', files, f'{args} /obj {d}/out a.obj'))
        S.append((f'{k}/seed', files, f'{args} {DLLO}/seed 77 /out a.dll'))
        S.append((f'{k}/P', files, f'{args.split()[0]} /P /Fi a.i'))
        S.append((f'{k}/EP', files, f'{args.split()[0]} /EP'))
    S.append(('exe', EXE, 'a.c /out a.exe'))
    S.append(('exe/no_dynamic_base', EXE, 'a.c /no_dynamic_base /no_debug /out a.exe'))
    S.append(('err', ERR, 'a.c /obj'))
    S.append(('err2', {'a.c': 'int a = ;\nint f('}, 'a.c /obj'))
    S.append(('time', {'a.c': '__declspec(dllexport) int run(int *b){ b[0] = sizeof(__DATE__ __TIME__); return 4; }\n'}, f'a.c {DLLO}/no_debug /out a.dll'))
    S.append(('Zs', UNITS, 'a.c b.c c.c /Zs'))
    S.append(('show', UNITS, 'a.c b.c c.c /show_includes /obj'))
    return S


PLACE = (0, 1, 2, 3)
FILL = (0, 1, 0x56, 0x100)          # unspecified; then every byte 0x00, 0x55, 0xff
CLOCK = ((0, 0, 0, 0), (1 << 40, 99991, 54321, 7))   # clock offset, clock step, process id, years
IMG = (0, 1)
CPUS = (1, 4)
STALE = (0, 1)


def canon(files, out):
    """Replaces the time stamps and the PDB GUID."""
    r = {}
    guid = None
    for k, v in files.items():
        v = bytearray(v)
        if v[:2] == b'MZ' and len(v) > 0x40:
            pe = struct.unpack_from('<I', v, 0x3c)[0]
            v[pe + 8:pe + 12] = b'TIME'
            i = v.find(b'RSDS')
            if i >= 0:
                guid = bytes(v[i + 4:i + 20])
                v[i + 4:i + 20] = b'G' * 16
        elif k.endswith('.obj'):
            v[4:8] = b'TIME'
        r[k] = v
    for k, v in r.items():
        if k.endswith('.pdb'):
            n = 0
            i = v.find(guid) if guid else -1
            while i >= 0:
                v[i:i + 16] = b'G' * 16
                if n == 0:
                    v[i - 8:i - 4] = b'TIME'
                n += 1
                i = v.find(guid)
            if n != 1:
                r[k] = bytearray(b'the GUID of the image is not in the PDB (once): %d' % n) + v
    text = re.sub(r'\d+\.\d+(s|%)', r'#\1', out.decode('latin1'))   # times
    return {k: bytes(v) for k, v in r.items()}, text


def where(a, b):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return f'sizes {len(a)}, {len(b)}; first difference at {i:#x}: {a[max(0, i - 8):i + 16].hex()} / {b[max(0, i - 8):i + 16].hex()}'


def compare(ctx, key, what, ref, got, files, args):
    if ref[0] != got[0]:
        msg = f'{ref[0]} / {got[0]}'
    elif ref[2] != got[2]:
        msg = f'printed text differs: {ref[2][-300:]!r} / {got[2][-300:]!r}'
    else:
        bad = [k for k in sorted(set(ref[1]) | set(got[1])) if ref[1].get(k) != got[1].get(k)]
        if not bad:
            return
        k = bad[0]
        msg = f'{k} differs: ' + where(ref[1].get(k, b''), got[1].get(k, b''))
    ctx.violation(key, f'{what}: {msg}', {**files, 'cmdline.txt': 'hlc ' + args, 'env.txt': what})


def state(r):
    f, t = canon(r.files, r.out)
    return ((r.kind, r.code, tuple(r.errs) if r.kind == 'limit' else ()), f, t)


def run(ctx, files, args, cfg, sched=None, prior=None):
    place, fill, clock, img, cpus, stale = cfg
    ff = dict(files)
    ro = {}
    if stale:
        for n, d in (prior or {}).items():
            ff[n] = b'\xa5stale' * (len(d) // 3 + 5000)
    return ctx.e.compile(ff, args, image=img if sched is None else 2, env=(place, fill, clock[0], clock[1], clock[2], clock[3]), nproc=cpus, sched=sched, timeout=20, ro=ro)


BASE = (0, 0, CLOCK[0], 0, 4, 0)


def desc(cfg):
    return f'memory placement {cfg[0]}, fill {cfg[1]}, clock {cfg[2]}, compiler image {cfg[3]}, {cfg[4]} processors, stale outputs {cfg[5]}'


def group(ctx, key, files, args, cfgs, sched=None, jobs=None):
    """jobs: collects (thunk) work"""
    base = run(ctx, files, args, BASE, sched)
    ref = state(base)
    if base.kind != 'exit':
        if base.kind == 'limit':
            raise RuntimeError(f'{key}: {base.errs}')
        # crashes are other properties' business; they still have to be the same everywhere, but carry addresses
        ref = ((base.kind, base.code, ()), {}, '')
    inputs = set(files)
    prior = {k: v for k, v in base.files.items() if k not in inputs}

    def one(cfg):
        r = run(ctx, files, args, cfg, sched, prior)
        ctx.count()
        got = state(r)
        if r.kind != 'exit':
            got = ((r.kind, r.code, ()), {}, '')
        # stale outputs which were not written are reported unchanged by neither run
        if cfg[5]:
            got = (got[0], {k: v for k, v in got[1].items() if not (k in prior and v.startswith(b'\xa5stale') and k not in ref[1])}, got[2])
        compare(ctx, f'{key}/{"".join(map(str, cfg[:2]))}', desc(cfg), ref, got, files, args)
    ctx.seen(key)
    return [(one, cfg) for cfg in cfgs]


def covering(dims):
    """A small set of configurations in which every pair of values of two dimensions occurs (greedy)."""
    allc = list(itertools.product(*dims))
    need = {(i, j, a, b) for i in range(len(dims)) for j in range(i + 1, len(dims)) for a in dims[i] for b in dims[j]}
    out = []
    while need:
        best = max(allc, key=lambda c: sum((i, j, c[i], c[j]) in need for i in range(len(dims)) for j in range(i + 1, len(dims))))
        out.append(best)
        need -= {(i, j, best[i], best[j]) for i in range(len(dims)) for j in range(i + 1, len(dims))}
    return out


def histories(ctx, depth):
    ops = {
        'small': ({'s.c': '__declspec(dllexport) int run(int *b){ return 1; }\n'}, 's.c ' + DLLO + '/out a.dll'),
        'large': ({'l.c': UNITS['c.c'].replace('#include "h.h"', 'int shared; int inl(int);') .replace('inl(a);', '') + '__declspec(dllexport) int run(int *b){ return w1((void *)b); }\n'}, 'l.c ' + DLLO + '/out a.dll'),
        'bad': ({'e.c': 'int f(void){ return x; }\n'}, 'e.c ' + DLLO + '/out a.dll'),
        'nodebug': ({'s.c': '__declspec(dllexport) int run(int *b){ return 1; }\n'}, 's.c /no_debug ' + DLLO + '/out a.dll'),
        'obj': ({'f.c': FEATURES}, 'f.c /obj /out a.obj'),
        'objsmall': ({'s.c': '__declspec(dllexport) int run(int *b){ return 1; }\n'}, 's.c /obj /out a.obj'),
        'P': ({'f.c': FEATURES}, 'f.c /P /Fi a.i'),
        'Psmall': ({'s.c': '__declspec(dllexport) int run(int *b){ return 1; }\n'}, 's.c /P /Fi a.i'),
        'includes-i': ({'t.c': '#include "a.i"\nint other;\n'}, 't.c /obj /out t.obj'),
    }
    files = {}
    for f, _ in ops.values():
        files.update(f)
    memo = {}

    def step(disk, op):
        """disk: tuple of (name, content) of generated files. Returns the new disk and what was printed."""
        k = (disk, op)
        if k not in memo:
            r = ctx.e.compile({**files, **dict(disk)}, ops[op][1], image=0)
            ctx.count()
            cur = dict(disk)
            st = state(r)
            new = {n: v for n, v in st[1].items() if n not in files}
            cur.update(new)
            memo[k] = (tuple(sorted(cur.items())), st, new)
        return memo[k]
    fresh = {op: step((), op) for op in ops}
    inputs = {'includes-i': ('a.i',)}
    frontier = {(): ((),)}
    states = {()}
    n = 0
    for d in range(depth):
        nxt = {}
        work = [(disk, op) for disk in frontier for op in ops]
        for (disk, op), (after, st, new) in zip(work, ctx.e.map(lambda w: step(*w), work)):
            n += 1
            path = frontier[disk] + (op,)
            # the result in an otherwise empty directory, with only the files the operation reads
            need = tuple((k, v) for k, v in disk if k in inputs.get(op, ()))
            _, st0, new0 = step(need, op)
            exp = dict(disk)
            exp.update({k: v for k, v in new0.items()})
            key = 'history/' + '+'.join(str(x) for x in path if x)
            ctx.seen(key)
            if st[0] != st0[0] or st[2] != st0[2]:
                ctx.violation(key, f'{st0[0]} {st0[2][-200:]!r} / {st[0]} {st[2][-200:]!r}', {**files, 'cmdline.txt': '\n'.join(ops[x][1] for x in path if x)})
            elif dict(after) != exp:
                k = next(k for k in set(exp) | set(dict(after)) if exp.get(k) != dict(after).get(k))
                ctx.violation(key, f'{k}: ' + where(exp.get(k, b''), dict(after).get(k, b'')), {**files, 'cmdline.txt': '\n'.join(ops[x][1] for x in path if x)})
            if after not in states:
                states.add(after)
                nxt[after] = path
        frontier = nxt
    ctx.cov['history'] = {'operations': len(ops), 'depth': depth, 'transitions': n, 'distinct directory states': len(states)}


def body(c):
    c.cov['rule'] = 'an evaluation is one compilation compared byte for byte with the same compilation in another environment (or after another history); distinct by program, options and environment'
    full = list(itertools.product(PLACE, FILL, CLOCK, IMG, CPUS, STALE))
    cover = covering((PLACE, FILL, CLOCK, IMG, CPUS, STALE))
    c.cov['environments'] = {'full product': len(full), 'covering set': len(cover)}
    jobs = []
    S = scenarios()
    for k, f, a in S:
        jobs += group(c, k, f, a, full)
    # wide corpus: the inputs of the project's tests, as data
    n = 0
    kinds = [('obj', '/obj /out o.obj'), ('dll', DLLO + '/out o.dll')] + ([('P', '/P /Fi o.i'), ('exe', '/no_debug /out o.exe')] if c.thorough else [])
    corpus = []
    small = [cover[i] for i in ((1, 2, 5, 7) if not c.thorough else range(len(cover)))]
    for p in sorted(glob.glob(os.path.join(REPO, 'tests', '*', '*.c'))):
        src = open(p, 'rb').read()
        if b'#include' in src or len(src) > 60000:
            continue
        for k, o in kinds:
            corpus.append((f'tests/{os.path.basename(os.path.dirname(p))}/{os.path.basename(p)}/{k}', {'a.c': src}, 'a.c ' + o))
    c.cov['corpus'] = len(corpus)
    for js in c.e.map(lambda x: group(c, x[0], x[1], x[2], small), corpus):
        jobs += js
    c.e.map(lambda j: j[0](j[1]), jobs)
    # several threads, with the schedule as an input
    jobs = []
    for t in (2, 3) if not c.thorough else (2, 3, 4):
        for spec in (struct.pack('<IIII', 1, 0, 0, 0),):
            for k, f, a in S:
                if k.startswith('units/') and ('obj' in k or 'dll' in k or 'seed' in k) or k == 'err':
                    jobs += group(c, f'{k}/threads{t}', f, a + f' /thread_count {t}', [x for x in (full if c.thorough else cover) if x[3] == 0], sched=spec)
    c.e.map(lambda j: j[0](j[1]), jobs)
    histories(c, 4 if c.thorough else 3)


main('C15', 'exhaustive enumeration of environments and histories within bounds', body, variants=('plain', 'plain2', 'tsan'), need_ref=False)
