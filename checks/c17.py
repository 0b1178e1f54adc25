#!/usr/bin/env python3
"""C17: I/O and resource failures are reported.

Every environment call of a compilation (open, file information, read, write, memory reservation, commitment and allocation, registry,
directory search, attributes, thread and event creation) is a fault point. The fault-free run numbers them; then every point is made to fail in every mode it has
(failure; reading or writing half; reading or writing nothing while reporting success). After a fault the compiler must either produce exactly
the fault-free output, or exit with a non-zero status and a diagnostic. A fault may not make it crash, assert, hang, or report
success with output that is missing or different."""
import os, sys, struct, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from check import main
from hx import u64

MODES = {'open-read': (1,), 'open-write': (1,), 'file-info': (1,), 'read': (1, 2, 3), 'write': (1, 2, 3), 'alloc': (1,), 'reserve': (1,), 'commit': (1,),
         'reg-open': (1,), 'reg-query': (1,), 'reg-enum': (1,), 'find': (1,), 'thread': (1,), 'event': (1,)}
MEM = ('alloc', 'reserve', 'commit')   # when memory runs out, the message of a failed assertion counts as the diagnostic
NAMES = {1: 'fails', 2: 'is short', 3: 'transfers nothing'}


class Scenario:
    def __init__(self, key, files, args, outs=(), threads=1, code=0, max_pairs=(0, 60000), nproc=4, cmp_run=False, sample=None):
        self.__dict__.update(locals())


def big(n):
    return ''.join(f'int f{i}(int a){{ int b[{i % 7 + 1}]; b[0] = a * {i}; return b[0] + {i}; }} int v{i} = {i};\n' for i in range(n)) + 'int (*tab[])(int) = {' + ','.join(f'f{i}' for i in range(n)) + '};'


def scenarios(thorough):
    S = []
    hello = {'a.c': '#include "h.h"\nint puts(const char *);\n#pragma comment(lib, "extra.lib")\nint main(int argc, char **argv){ puts(TEXT); return argc + 41; }\n', 'h.h': '#define TEXT "hello"\n'}
    dll = {'a.c': '#include "h.h"\n__declspec(dllexport) int run(int *b){ return V + g(b[0]); }\n', 'h.h': '#include "sub/i.h"\n#define V 3\n', 'sub/i.h': 'int g(int);\n', 'b.c': '#include "h.h"\nint g(int a){ return a * V; }\n' + big(20)}
    S.append(Scenario('exe', {k: v.replace('#pragma comment(lib, "extra.lib")\n', '') for k, v in hello.items()}, 'a.c /no_debug', ['a.exe']))
    S.append(Scenario('exe+pdb', {k: v.replace('#pragma comment(lib, "extra.lib")\n', '') for k, v in hello.items()}, 'a.c', ['a.exe', 'a.pdb']))
    S.append(Scenario('dll', dll, 'a.c b.c /dll /no_entry /no_stdlib /out a.dll', ['a.dll']))
    S.append(Scenario('obj', dll, 'a.c b.c /obj /out a.obj', ['a.obj']))
    S.append(Scenario('objdirs', {'src/a.c': '#include <x.h>\nint f(void){ return X; }', 'inc/x.h': '#include <y.h>\n', 'inc2/y.h': '#define X 3\n'}, 'src/a.c /I inc /I inc2 /c /out b.obj', ['b.obj']))
    S.append(Scenario('preprocess', dll, 'a.c /P /Fi out.i', ['out.i']))
    S.append(Scenario('stdout', dll, 'a.c /EP', []))
    S.append(Scenario('unit', {'a.c': '#pragma compilation_unit("b.c")\nint g(int);\n__declspec(dllexport) int run(int *b){ return g(b[0]); }\n', 'b.c': 'int g(int a){ return a * 3; }\n'}, 'a.c /dll /no_entry /no_stdlib /no_debug /out a.dll', ['a.dll']))
    S.append(Scenario('embed', {'a.c': 'static const unsigned char e[] = {\n#embed "data.bin"\n};\n__declspec(dllexport) int run(int *b){ return e[b[0]]; }\n', 'data.bin': 'some binary data\x01\x02'}, 'a.c /dll /no_entry /no_stdlib /no_debug /out a.dll', ['a.dll']))
    S.append(Scenario('response', {'opts.txt': '/dll /no_entry /no_stdlib\n/no_debug /out a.dll\n', 'a.c': '__declspec(dllexport) int run(int *b){ return b[0] + 2; }\n'}, 'a.c @opts.txt', ['a.dll']))
    S.append(Scenario('library', {'a.c': '#pragma comment(lib, "C:/sdk/Lib/10.0.1.0/um/x64/kernel32.lib")\n__declspec(dllimport) void Sleep(int);\n__declspec(dllimport) unsigned GetCurrentProcessId(void);\n__declspec(dllexport) int run(int *b){ Sleep(1); return GetCurrentProcessId() != 0; }\n'}, 'a.c /dll /no_entry /no_stdlib /no_debug /out a.dll', ['a.dll']))
    S.append(Scenario('libpath', {'a.c': '__declspec(dllimport) void Sleep(int);\n__declspec(dllexport) int run(int *b){ Sleep(1); return 3; }\n'}, 'a.c /dll /no_entry /no_stdlib /no_debug /out a.dll /LIBPATH C:/nothere /LIBPATH C:/sdk/Lib/10.0.1.0/um/x64 /l kernel32.lib', ['a.dll']))
    S.append(Scenario('wildcard', {'s/a.c': 'int g(int);\n__declspec(dllexport) int run(int *b){ return g(b[0]); }\n', 's/b.c': 'int g(int a){ return a * 3; }\n'}, 's/*.c /dll /no_entry /no_stdlib /no_debug /out a.dll', ['a.dll']))
    S.append(Scenario('errors', {'a.c': '#include "h.h"\nint f(void){ return undeclared; }\n', 'h.h': 'int g(int);\n'}, 'a.c /obj /out a.obj', [], code=1))
    S.append(Scenario('threads', dll, 'a.c b.c /thread_count 3 /dll /no_entry /no_stdlib /no_debug /out a.dll', ['a.dll'], threads=3))
    big1 = {'a.c': '__declspec(dllexport) int run(int *b){ return 7; }\n' + big(300) + '\nstatic char blob[300000] = "x"; __declspec(dllexport) char *pb = blob;\n' + '#define M(...) __VA_ARGS__ __VA_ARGS__ __VA_ARGS__ __VA_ARGS__ __VA_ARGS__ __VA_ARGS__ __VA_ARGS__ __VA_ARGS__\nint many[] = { M(M(M(M(M(1,))))) };\n'}
    S.append(Scenario('large', big1, 'a.c /dll /no_entry /no_stdlib /out a.dll', ['a.dll'], max_pairs=(0, 0)))
    if thorough:
        S.append(Scenario('threads-obj', dll, 'a.c b.c /thread_count 2 /obj /out a.obj', ['a.obj'], threads=2))
        S.append(Scenario('large-obj', big1, 'a.c /obj /out a.obj', ['a.obj'], max_pairs=(0, 0)))
    return S


def mask(name, b):
    """What differs between two runs of the same compilation by design: the PDB GUID in the image, and the PDB."""
    if name.endswith('.pdb'):
        return len(b)
    i = b.find(b'RSDS')
    return b if i < 0 or name.endswith('.obj') else b[:i + 4] + b'?' * 16 + b[i + 20:]


def short(p):
    op, arg = p
    return op + (':' + arg.split('\\')[-1] if arg and op not in ('commit', 'reserve', 'alloc') else '')


def body(c):
    c.cov['rule'] = 'a case is one compilation with one (thorough: also every pair of) fault(s); distinct by scenario, fault point and mode'
    only = os.environ.get('C17', '').split(',') if os.environ.get('C17') else None
    per = c.cov['scenarios'] = {}
    for s in scenarios(c.thorough):
        if only and s.key not in only:
            continue
        sched = None
        if s.threads > 1:
            sched = struct.pack('<IIII', 1, 0, 0, 0)   # the default schedule of the controlled scheduler, so that fault points have fixed numbers
        kw = dict(nproc=s.nproc, timeout=8 if sched is None else 20, sched=sched, image=1 if sched is None else 0)
        def comp(faults=(), log=False):
            return c.e.compile(s.files, s.args, faults=faults, log=log, **kw)
        base = comp(log=True)
        if not (base.kind == 'exit' and base.code == s.code and all(base.files.get(o) for o in s.outs)):
            c.violation(f'base/{s.key}', f'the fault-free compilation failed: {base.kind} {base.code} {base.out[-500:]} {list(base.files)} {base.errs}', {**s.files, 'cmdline.txt': s.args})
            continue
        good = {k: mask(k, v) for k, v in base.files.items()}
        pts = [l.split(' ', 3) for l in base.log]
        pts = sorted((int(p[0]), p[1], ' '.join(p[2:]).rsplit(' ', 1)[0]) for p in pts)
        singles = [(n, op, arg, m) for n, op, arg in pts for m in MODES.get(op, ())]
        per[s.key] = {'fault points': len(pts), 'single faults': len(singles)}
        later = {}

        def judge(key, r, what, mem):
            msg = None
            text = r.out.decode('latin1')
            if r.kind != 'exit':
                msg = f'{r.kind} {r.code} rip={r.rip:#x} {r.errs}'
            elif ('ASSERT FIRED' in text or r.code == 1337) and not mem:
                msg = 'assertion: ' + text[-300:]
            elif r.code == s.code:
                bad = [k for k in good if mask(k, r.files.get(k, b'')) != good[k]] + [k for k in r.files if k not in good]
                if s.threads > 1:
                    bad = [k for k in bad if len(r.files.get(k, b'')) != len(base.files.get(k, b''))]
                if bad:
                    msg = f'exit {r.code} but {bad} differ(s) from the fault-free output (sizes {[(k, len(r.files.get(k, b"")), len(base.files.get(k, b""))) for k in bad]}); printed: {text[-200:]!r}'
                elif s.code == 0 and not s.outs and text != base.out.decode('latin1'):
                    msg = f'exit {r.code} but the printed output differs'
                elif s.code and not mem and not re.search('error', text, re.I):
                    msg = 'no diagnostic'
            elif r.code == 0:
                msg = 'success reported for an ill-formed program'
            elif not text.strip():
                msg = f'exit {r.code} without any diagnostic'
            elif not re.search(r'error|could not|failed|not found|unable|cannot|out of memory|failure|ASSERT FIRED', text.replace(base.out.decode('latin1'), ''), re.I):
                msg = f'exit {r.code} without a diagnostic: {text[-200:]!r}'
            if msg:
                c.violation(key, f'{what}: {msg}', {**s.files, 'cmdline.txt': 'hlc ' + s.args, 'fault.txt': what})
            return msg

        ords = {}
        occ = []
        for n, op, arg, m in singles:
            k = (op if op in ('commit', 'reserve', 'alloc') else op + ':' + arg.split('\\')[-1], m)
            ords[k] = ords.get(k, 0) + 1
            occ.append(ords[k])

        def one(x):
            (n, op, arg, m), o = x
            r = comp([(n, m)])
            c.count()
            key = f'{s.key}/{short((op, arg))}#{o}/{NAMES[m].split()[-1]}'
            c.seen(key)
            judge(key, r, f'{op} {arg} (point {n}, occurrence {o}) {NAMES[m]}', op in MEM)
            return r.kind == 'exit' and r.code == s.code
        res = c.e.map(one, list(zip(singles, occ)))
        # a fault the compiler survives does not end the run: a second one may follow
        if c.thorough and s.max_pairs[1]:
            surv = [x for x, k in zip(singles, res) if k]
            def follow(x):
                q = sorted((int(l.split(' ', 3)[0]), l.split(' ', 3)[1], ' '.join(l.split(' ')[2:]).rsplit(' ', 1)[0]) for l in comp([(x[0], x[3])], log=True).log)
                return [(x, (n, op, arg, m)) for n, op, arg in q if n > x[0] for m in MODES.get(op, ())]
            todo = [y for z in c.e.map(follow, surv) for y in z]
            total = len(todo)
            todo = todo[:s.max_pairs[1]]
            def two(x):
                (n, op, arg, m), (n2, op2, arg2, m2) = x
                r = comp([(n, m), (n2, m2)])
                c.count()
                judge(f'{s.key}/pair {n}:{short((op, arg))}/{m},{n2}:{short((op2, arg2))}/{m2}', r, f'{op} {arg} (point {n}) {NAMES[m]}, then {op2} {arg2} (point {n2}) {NAMES[m2]}', op in MEM or op2 in MEM)
            c.e.map(two, todo)
            per[s.key].update({'survivable faults': len(surv), 'pairs': total, 'pairs run': len(todo)})
        # everything fails from some point on
        def sticky(x):
            n, op, arg = x
            r = comp([(n | 1 << 63, 1)])
            c.count()
            c.seen(f'{s.key}/from {n}')
            judge(f'{s.key}/from/{n}/{short((op, arg))}', r, f'{op} {arg} (point {n}) and everything after it fails', True)
        c.e.map(sticky, pts)
        c.sample(f'{s.key}: {per[s.key]}; e.g. {short(singles[len(singles) // 2][1:3])}')


if __name__ == '__main__':
    main('C17', 'fault_enumeration', body, variants=('tsan', 'plain'), need_ref=False)
