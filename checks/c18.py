#!/usr/bin/env python3
"""C18: command-line options have their documented effect.

A model of the documented options maps an option multiset to what a run must show (kind and name of the output, image fields, entry point,
predefined macros, debug information, printed text, exit code). Every option in every spelling, every ordered pair (thorough: triple) of
options and every position of the input file is run and compared with the model; every string over the quoting alphabet up to a length
is split by hlc and by the start-up code of compiled programs and compared with the Windows rules."""
import os, sys, re, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from check import main
import pe

SRC = r'''
#define S_(x) #x
#define S(x) S_(x)
#if defined(_MT)
#define A1 "M"
#else
#define A1 "-"
#endif
#if defined(_DLL)
#define A2 "D"
#else
#define A2 "-"
#endif
#if defined(_DEBUG)
#define A3 "G"
#else
#define A3 "-"
#endif
#if defined(__HLC__)
#define A4 "H"
#else
#define A4 "-"
#endif
__declspec(dllexport) char marker[] = "@@" A1 A2 A3 A4 "," S(FOO) "," S(BAR) "," S(__STDC_VERSION__) ",@@";
__declspec(dllexport) char *pointer = marker;
struct HINSTANCE__;
int unused(void){ int zvar; return 1; }
int main(void){ return marker[0] + 0x1111111; }
int WinMain(struct HINSTANCE__ *a, struct HINSTANCE__ *b, char *c, int d){ return marker[1] + 0x2222222 + (a == b) + *c + d; }
int DllMain(void *a, unsigned b, void *c){ return marker[2] + 0x3333333 + (a == c) + b; }
int efi_main(void *a, void *b){ return marker[3] + 0x4444444 + (a == b); }
int foo(void){ return marker[4] + 0x5555555; }
'''
ENTRIES = {'main': 0x1111111, 'WinMain': 0x2222222, 'DllMain': 0x3333333, 'efi_main': 0x4444444, 'foo': 0x5555555}
SUB = {'console': 3, 'windows': 2, 'efi_application': 10}
STD = {'c99': '199901L', 'c11': '201112L', 'c17': '201710L', 'c23': '202311L', 'clatest': '202311L'}

# canonical option -> (spellings of the name, argument or None)
OPTS = [
    ('no_stdlib', ['no_stdlib', 'nostdlib', 'no-stdlib', 'NO_STDLIB'], None),
    ('no_predefines', ['no_predefines', 'nopredefines', 'No-Predefines'], None),
    ('no_debug', ['no_debug', 'nodebug', 'no-debug', 'NoDebug'], None),
    ('no_dynamic_base', ['no_dynamic_base', 'nodynamicbase', 'no-dynamic-base'], None),
    ('image_base', ['image_base', 'imagebase', 'IMAGE-BASE'], ['0x240000000', '4831838208']),
    ('subsystem', ['subsystem', 'SUBSYSTEM'], ['console', 'windows', 'efi_application', 'Windows']),
    ('out', ['out', 'o', 'OUT', 'Fe', 'Fo'], ['b', 'c.exe', 'd.dll', 'e.obj', 'sub', 'sub/f', 'C:/w/sub/g.exe', 'x.y.exe']),
    ('entry', ['entry', 'ENTRY'], ['foo', 'main']),
    ('no_entry', ['no_entry', 'noentry', 'NOENTRY'], None),
    ('dll', ['dll', 'DLL', 'LD', 'LDd'], None),
    ('obj', ['obj', 'c', 'OBJ'], None),
    ('thread_count', ['thread_count', 'threadcount'], ['2', '0x3']),
    ('MP', ['MP'], None),
    ('I', ['I'], ['inc', 'inc2']),
    ('LIBPATH', ['LIBPATH', 'libpath'], ['inc']),
    ('D', ['D'], ['FOO', 'FOO=2', 'BAR=x', 'BAR#7']),
    ('Wall', ['Wall', 'WALL'], None),
    ('Wnone', ['Wnone'], None),
    ('W', ['W'], ['18', 'function_defined_but_unreachable', 'function-defined-but-unreachable']),
    ('Wno', ['Wno', 'wd'], ['19', 'unused_local_variable', '0x13']),
    ('incremental', ['incremental', 'INCREMENTAL'], ['no', 'yes']),
    ('MF', ['MF'], ['dep.d']),
    ('l', ['l'], ['user32', 'user32.lib']),
    ('quiet', ['quiet', 'nologo'], None),
    ('EP', ['EP'], None),
    ('PFi', ['P /Fi out.i', 'Fi out.i -P', 'P -Fi=out.i'], None),
    ('MD', ['MD'], None), ('MDd', ['MDd'], None), ('MT', ['MT'], None), ('MTd', ['MTd'], None),
    ('std', ['std'], ['c99', 'c11', 'c17', 'c23', 'clatest', 'C11']),
    ('warning_limit', ['warning_limit', 'warninglimit'], ['50']),
    ('error_limit', ['error_limit'], ['50']),
    ('syntax_check', ['syntax_check', 'Zs'], None),
    ('report_warnings_in_system_includes', ['report_warnings_in_system_includes'], None),
    ('seed', ['seed'], ['7', '0xFFFFffff']),
    ('ignore', ['ignore'], ['z.q']),
    ('link', ['link'], None),
    ('show_includes', ['show_includes', 'showIncludes'], None),
]
JOIN = {'out': 'o', 'I': 'I', 'D': 'D', 'l': 'l', 'W': 'W', 'Wno': 'wd'}     # a name that takes its argument without separator


def expect(opts):
    """opts: [(canonical, argument)] in command-line order -> dict of observations, or None where the documentation leaves it open"""
    n = {}
    for k, v in opts:
        n.setdefault(k, []).append(v)
    crt = [k for k in ('MD', 'MDd', 'MT', 'MTd') if k in n]
    fail = {'code': 1, 'out': None}
    if len(crt) > 1:
        return fail
    if 'dll' in n and 'obj' in n:
        return fail
    if 'entry' in n and 'no_entry' in n:
        return fail
    if 'thread_count' in n and 'MP' in n:
        return fail
    out = n['out'][-1] if 'out' in n else None
    sub = SUB[n['subsystem'][-1].lower()] if 'subsystem' in n else 0
    ext = re.search(r'\.(\w+)$', out).group(1) if out and '.' in out else None
    kind = 'dll' if 'dll' in n else 'obj' if 'obj' in n else ext if ext in ('exe', 'dll', 'obj', 'efi') else 'dll' if 'no_entry' in n else None
    noentry = 'no_entry' in n or kind == 'obj'
    entry = n['entry'][-1] if 'entry' in n else None
    e = {'code': 0}
    foo = bar = None
    for k, v in opts:
        if k == 'D':
            name, val = re.split('[=#]', v, 1) if re.search('[=#]', v) else (v, '1')
            if name == 'FOO':
                foo = val
            else:
                bar = val
    std = STD[n['std'][-1].lower()] if 'std' in n and 'no_predefines' not in n else '__STDC_VERSION__'
    pd = 'no_predefines' not in n
    e['macros'] = ('M' if crt and pd else '-') + ('D' if crt and crt[0] in ('MD', 'MDd') and pd else '-') + ('G' if crt and crt[0] in ('MDd', 'MTd') and pd else '-') + ('H' if pd else '-') + f',{foo or "FOO"},{bar or "BAR"},{std},'
    if sum(1 for k, v in opts if k == 'D' and v.startswith('FOO')) > 1 and len({v for k, v in opts if k == 'D' and v.startswith('FOO')}) > 1:
        return None
    if sum(1 for k, v in opts if k == 'D' and v.startswith('BAR')) > 1 and len({v for k, v in opts if k == 'D' and v.startswith('BAR')}) > 1:
        return None
    e['quiet'] = 'quiet' in n or 'EP' in n
    if 'EP' in n and 'PFi' in n:
        return None
    if 'EP' in n:
        e.update(out=None, text=True)
        return e
    if 'PFi' in n:
        e.update(out='out.i')
        return e
    if 'syntax_check' in n:
        e.update(out=None)
        del e['macros']
        return e
    if 'no_stdlib' in n and kind not in ('dll', 'obj', 'efi') and not entry and sub != 10:
        return None         # the start-up code needs the run-time library
    if noentry and kind in ('exe', 'efi'):
        return None
    if kind is None and not entry:
        kind = {0: 'exe', 3: 'exe', 2: 'exe', 10: 'efi'}[sub]
    if kind is None:
        if entry == 'foo':
            kind = 'exe'
        else:
            return None if sub == 2 or sub == 10 else dict(e, open=1)
    if kind == 'exe' and sub == 10 or kind == 'efi' and sub not in (0, 10):
        return None
    if entry and kind == 'efi':
        return None
    e['kind'] = kind
    base = 'a'
    if out is None:
        name = 'a.' + kind
    elif out == 'sub':
        name = 'sub\\a.' + kind
    else:
        o = out.replace('C:/w/', '').replace('/', '\\')
        name = o if ext else o + '.' + kind
    e['out'] = name
    e['pdb'] = kind != 'obj' and 'no_debug' not in n
    if kind == 'obj':
        e['objdebug'] = 'no_debug' not in n
        e['crt'] = crt[0] if crt else 'MTd'
    else:
        e['base'] = int(n['image_base'][-1], 0) if 'image_base' in n else 0x180000000 if kind == 'dll' else 0x140000000
        e['dyn'] = 'no_dynamic_base' not in n
        e['subsystem'] = sub or {'exe': 3, 'dll': 2, 'efi': 10}[kind]
        if kind == 'dll' and entry:
            e['entry'] = entry
        elif noentry:
            e['entry'] = None
        elif entry:
            e['entry'] = entry
        elif kind == 'dll':
            e['entry'] = 'DllMain'
        elif kind == 'efi':
            e['entry'] = 'efi_main'
        else:
            e['entry'] = 'start'
            e['calls'] = 'WinMain' if sub == 2 else 'main'
    # warnings
    w = {19}
    for k, v in opts:
        if k == 'Wall':
            w = {18, 19}
        elif k == 'Wnone':
            w = set()
        elif k == 'W':
            w = w | {18}
        elif k == 'Wno':
            w = w - {19}
    e['warn'] = w - {18} if kind == 'obj' else w       # nothing in an object is unreachable
    return e


def observe(r, main_out=None):
    o = {'kind': r.kind, 'code': r.code}
    return o


def img(d):
    lf = struct.unpack_from('<I', d, 0x3c)[0]
    ch = struct.unpack_from('<H', d, lf + 22)[0]
    oh = lf + 24
    return dict(entry=struct.unpack_from('<I', d, oh + 16)[0], base=struct.unpack_from('<Q', d, oh + 24)[0], sub=struct.unpack_from('<H', d, oh + 68)[0], dll=struct.unpack_from('<H', d, oh + 70)[0], ch=ch, reloc=struct.unpack_from('<I', d, oh + 112 + 5 * 8 + 4)[0])


def compare(r, e):
    """list of deviations of a run from the model"""
    bad = []

    def eq(w, a, b):
        if a != b:
            bad.append(f'{w}: {a!r}, documented {b!r}')
    text = r.out.decode('latin1')
    if r.kind != 'exit' or 'ASSERT FIRED' in text or r.code == 1337:
        return [f'{r.kind} {r.code} {text[-200:]}']
    eq('exit code', r.code, e['code'])
    if e['code']:
        eq('output files', sorted(r.files), [])
        if 'rror' not in text:
            bad.append('no diagnostic')
        return bad
    if e.get('open'):
        return bad
    want = [e['out']] if e['out'] else []
    if e.get('pdb'):
        want.append(re.sub(r'\.\w+$', '', e['out']) + '.pdb')
    eq('output files', sorted(r.files), sorted(want))
    eq('"Total Lines" printed', 'Total Lines' in text, not e['quiet'] and 'kind' in e)
    if bad:
        return bad
    d = r.files[e['out']] if e['out'] else r.out
    if 'macros' in e:
        t = d.replace(b'" "', b'') if 'kind' not in e else d
        m = re.findall(rb'@@([-MDGH"\x20]{4,20},.*?)@@', t)
        m = [x.replace(b'" "', b'').replace(b'"', b'') for x in m]
        eq('macros', [x.decode('latin1') for x in m[:1]], [e['macros']])
    if 'kind' not in e:
        return bad
    if e['kind'] == 'obj':
        eq('machine', d[:2], b'\x64\x86')
        eq('.debug$S present', b'.debug$S' in d, e['objdebug'])
        dl = {k: v for k, v in (('MD', b'MSVCRT'), ('MDd', b'MSVCRTD'), ('MT', b'LIBCMT'), ('MTd', b'LIBCMTD'))}
        m = re.findall(rb'/DEFAULTLIB:"?(\w+)', d, re.I)
        eq('default library', [x.upper() for x in m if x.upper() in dl.values()], [dl[e['crt']]])
    else:
        p, errs = pe.check(d)
        if errs:
            bad.append('image: ' + errs[0])
            return bad
        i = img(d)
        eq('DLL flag', bool(i['ch'] & 0x2000), e['kind'] == 'dll')
        eq('image base', i['base'], e['base'])
        eq('DYNAMIC_BASE', bool(i['dll'] & 0x40), e['dyn'])
        eq('RELOCS_STRIPPED', bool(i['ch'] & 1), not e['dyn'])
        eq('base relocations', bool(i['reloc']), e['dyn'])
        eq('subsystem', i['sub'], e['subsystem'])
        if e['entry'] is None:
            eq('entry point', i['entry'], 0)
        else:
            code = (p.at(i['entry'] & ~0xfff, min(0x1000, p.sec(i['entry'])['vs'] - ((i['entry'] & ~0xfff) - p.sec(i['entry'])['va'])))[i['entry'] & 0xfff:][:0x80]) if i['entry'] else b''
            code = bytes(code or b'')
            who = [k for k, v in ENTRIES.items() if struct.pack('<I', v) in code[:0x60]]
            if e['entry'] == 'start':
                if not i['entry']:
                    bad.append('no entry point')
                present = [k for k, v in ENTRIES.items() if struct.pack('<I', v) in d]
                eq('main function in the image', present, [e['calls']])
            elif e['entry'] not in who:
                bad.append(f'entry point is {who}, documented {e["entry"]}')
        if e['pdb']:
            eq('debug directory names the PDB', b'RSDS' in d, True)
    got = {int(x) for x in re.findall(r'Warning (\d+) at', text)} & {18, 19}
    eq('warnings', got, e['warn'])
    return bad


FILES = {'a.c': SRC, 'inc/h.h': '#define INC 1\n', 'inc2/h2.h': '', 'sub/x.txt': ''}


def chunks(seq, n):
    it = iter(seq)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def spellings(can, names, arg):
    for nm in names:
        for pre in ('/', '-', '--'):
            if arg is None:
                yield pre + nm
            else:
                yield f'{pre}{nm} {arg}'
                if '=' in arg:
                    yield f'{pre}{nm}:{arg}'
                yield f'{pre}{nm}={arg}'
                yield f'{pre}{nm}:{arg}'
                yield f'"{pre}{nm} {arg}"'
    if arg is not None and can in JOIN:
        for pre in ('/', '-', '--'):
            yield f'{pre}{JOIN[can]}{arg}'
    if arg is not None and can == 'Wno':
        yield f'-Wno{arg}'
        if not arg[0].isdigit():
            yield f'-Wno-{arg}'


def run(c, key, args, exp, files=FILES, cwd=None):
    r = c.e.compile(files, args)
    c.count()
    c.seen(key)
    if exp is None:
        exp = None
        text = r.out.decode('latin1')
        bad = [f'{r.kind} {r.code} {text[-200:]}'] if r.kind != 'exit' or 'ASSERT FIRED' in text else []
    else:
        bad = compare(r, exp)
    if bad:
        c.violation(key, f'hlc {args}: ' + '; '.join(bad[:3]), {**files, 'cmdline.txt': 'hlc ' + args, 'out.txt': r.out})
    return r


def part_single(c):
    jobs = []
    for can, names, args in OPTS:
        for arg in (args or [None]):
            for sp in dict.fromkeys(spellings(can, names, arg)):
                for pos in ('a.c {}', '{} a.c'):
                    jobs.append((f'single/{pos.format(sp)}', pos.format(sp), expect([(can, arg)])))
    c.e.map(lambda j: run(c, *j), jobs)
    c.cov['single options'] = len(jobs)


def flat():
    for can, names, args in OPTS:
        for arg in (args or [None]):
            yield can, arg, '/' + names[0] + (' ' + arg if arg is not None else '')


def part_tuples(c, n, sub=None):
    jobs = 0
    al = list(flat()) if sub is None else [x for x in flat() if sub(x)]

    def gen():
        for t in itertools.product(al, repeat=n):
            if len({x[0] for x in t}) < n and len(set(t)) < n:
                continue
            e = expect([(x[0], x[1]) for x in t])
            yield t, e
    for batch in chunks(gen(), 2000):
        def one(x):
            t, e = x
            words = [y[2] for y in t]
            pos = (hash_pos(t)) % (n + 1)
            args = ' '.join(words[:pos] + ['a.c'] + words[pos:])
            run(c, 'tuple/' + args, args, e)
        c.e.map(one, batch)
        jobs += len(batch)
    c.cov[f'ordered {n}-tuples of options'] = jobs


def hash_pos(t):
    return sum(ord(ch) for y in t for ch in y[2])


def part_errors(c):
    """unknown options, incomplete options, invalid arguments, help, response files, input files"""
    cases = []
    ok = expect([])
    ex = lambda s: lambda r, t: (r.kind == 'exit' and r.code == 1 and s in t and not r.files) or f'expected exit 1 and {s!r}'
    def warn(s):
        return lambda r, t: (r.kind == 'exit' and r.code == 0 and s in t and 'a.exe' in r.files) or f'expected exit 0, an image and {s!r}'
    for pre in ('/', '-', '--'):
        for u in ('zzz', 'qq=1', 'no_such_option', 'noooo', 'ddll', 'dlll', 'objx', 'image_bas', 'Q', 'z'):
            if u.startswith(('h', 'o', 'I', 'D', 'W', 'l')):
                continue
            cases.append((f'unknown/{pre}{u}', f'{pre}{u} a.c', warn(f"Unknown command-line option '{u}'")))
        for m in ('out', 'o', 'Fe', 'entry', 'subsystem', 'image_base', 'thread_count', 'I', 'D', 'l', 'W', 'Wno', 'std', 'seed', 'Fi', 'MF', 'LIBPATH', 'incremental', 'warning_limit', 'error_limit'):
            cases.append((f'missing/{pre}{m}', f'a.c {pre}{m}', ex('Expected argument after command line option')))
            if m in ('subsystem', 'std', 'incremental'):
                cases.append((f'badenum/{pre}{m}', f'a.c {pre}{m} nonsense', ex('Unhandled value')))
            if m in ('image_base', 'thread_count', 'seed', 'warning_limit', 'error_limit'):
                for bad in ('x', '12a', '1:', '1 2x', '-1', '0x', '0xg', '0x12g', '1.5', ':', '1;'):
                    if ' ' in bad:
                        continue
                    cases.append((f'badnumber/{pre}{m}/{bad}', f'a.c {pre}{m} {bad}', ex('Could not parse argument')))
    cases.append(('toolong', 'a.c -' + 'z' * 300, ex('too long')))
    cases.append(('nodir/I', 'a.c /I nodir', warn('must be a directory')))
    cases.append(('nodir/LIBPATH', 'a.c /LIBPATH nodir', warn('must be a directory')))
    cases.append(('unhandled warning', 'a.c /W nosuchwarning', warn('Unhandled warning value')))
    cases.append(('unhandled warning number', 'a.c /W 46', warn('Unhandled warning value')))
    cases.append(('warning as an option', 'a.c /warning x', lambda r, t: r.kind == 'exit' and 'ASSERT FIRED' not in t or 'crashed'))
    for n in ('0', '41', '100000', '18446744073709551615'):
        cases.append((f'threads/{n}', f'a.c /thread_count {n}', ex('thread')))
    for n in ('1', '8', '0x9'):
        cases.append((f'threads/{n}', f'a.c /thread_count {n}', warn('Total Lines')))
    cases.append(('noinput', '/quiet', lambda r, t: r.kind == 'exit' and r.code != 0 and 'No input files' in t or 'expected a failure and "No input files"'))
    cases.append(('noinput2', '', lambda r, t: r.kind == 'exit' and 'Usage' in t or 'expected the usage'))
    cases.append(('missingfile', 'zz.c', lambda r, t: r.kind == 'exit' and r.code != 0 and 'does not exist' in t or 'expected a failure'))
    cases.append(('missingfile2', 'a.c zz.c', lambda r, t: r.kind == 'exit' and r.code != 0 and 'zz.c' in t and not r.files or 'expected a failure'))
    cases.append(('missingwild', 'q*.c', lambda r, t: r.kind == 'exit' and r.code != 0 and 'does not exist' in t or 'expected a failure'))
    cases.append(('missingresponse', 'a.c @nofile', ex('Could not load command file')))
    cases.append(('extension', 'a.txt', lambda r, t: r.kind == 'exit' and r.code == 0 and 'uncanonical file extension' in t or 'expected a warning'))
    cases.append(('dllinput', 'a.c b.dll', ex('not implemented')))
    cases.append(('resource', 'a.c b.res', warn('Ignoring resource file')))
    cases.append(('entrymissing', 'a.c /entry nosuch', lambda r, t: r.kind == 'exit' and r.code == 1 and 'nosuch' in t and not r.files or 'expected exit 1'))
    cases.append(('emptydefine', 'a.c /D =1', ex('Expected an identifier')))
    for rsp, exp in (('/dll', [('dll', None)]), ('/dll /no_entry\n', [('dll', None), ('no_entry', None)]), ('/out\nb\n', [('out', 'b')]), ('"/D" "FOO=2" \r\n/obj', [('D', 'FOO=2'), ('obj', None)]), ('@r2', [('dll', None), ('no_debug', None)]), ('', []), ('\ufeff/dll', [('dll', None)])):
        if exp == [] or rsp[:1] == '\ufeff':
            enc = rsp.encode('utf-16') if rsp else b''
        else:
            enc = rsp.encode()
        if rsp[:1] == '\ufeff':
            enc = b'\xff\xfe' + rsp[1:].encode('utf-16-le')
        for pos in ('a.c @r1', '@r1 a.c'):
            cases.append((f'response/{rsp!r}/{pos}', pos, expect(exp), {'r1': enc, 'r2': b'/dll /no_debug'}))
    # help for every option
    names = [n for _, ns, _ in OPTS for n in ns if ' ' not in n] + ['help', 'h', '?', 'warning', 'P', 'EP', 'Fi']
    for n in names:
        if n in ('dont_print_the_files', 'seed', 'ignore', 'link', 'showIncludes'):
            continue
        for form in (f'--help {n}', f'/help:{n}', f'-h={n}', f'/? {n}', f'a.c --help {n}'):
            cases.append((f'help/{form}', form, lambda r, t, n=n: (r.kind == 'exit' and r.code == 0 and re.match(r'\s*-\w+.* \| ', t.split('\n\n')[0]) is not None and not r.files) or 'expected the help text'))
    for form in ('--help', '-h', '/?', '/help', 'a.c /help'):
        cases.append((f'help/{form}', form, lambda r, t: (r.kind == 'exit' and r.code == 0 and all('-' + x in t for x in ('no_stdlib', 'image_base', 'out', 'obj', 'Wall')) and not r.files) or 'expected the list of options'))
    # several files, output name from the first
    two = {'b.c': 'int helper(void){ return 4; }', 'a.txt': SRC}

    def one(case):
        key, args, f = case[:3]
        files = {**FILES, **two, **(case[3] if len(case) > 3 else {})}
        r = c.e.compile(files, args)
        c.count()
        c.seen('case/' + key)
        t = r.out.decode('latin1')
        if isinstance(f, dict):
            m = '; '.join(compare(r, f)[:3])
        else:
            m = f(r, t)
            m = '' if m is True or (m and not isinstance(m, str)) else m if isinstance(m, str) else 'failed'
            if r.kind != 'exit' or 'ASSERT FIRED' in t:
                m = m or 'crash'
        if m:
            c.violation('case/' + key, f'hlc {args}: {m}: {r.kind} {r.code} {sorted(r.files)} {t[-300:]!r}', {**files, 'cmdline.txt': 'hlc ' + args})
    c.e.map(one, cases)
    c.cov['single command lines (errors, help, response files)'] = len(cases)


def split(s, ws=' \t'):
    """The splitting rules of the Microsoft C run-time (2008 and later)."""
    args = []
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in ws:
            i += 1
        if i >= n:
            return args
        cur, q = '', False
        while True:
            b = 0
            while i < n and s[i] == '\\':
                b += 1
                i += 1
            if i < n and s[i] == '"':
                cur += '\\' * (b // 2)
                if b % 2:
                    cur += '"'
                elif q and i + 1 < n and s[i + 1] == '"':
                    cur += '"'
                    i += 1
                else:
                    q = not q
                i += 1
                continue
            cur += '\\' * b
            if i >= n or (s[i] in ws and not q):
                break
            cur += s[i]
            i += 1
        args.append(cur)


PRINT = r'''
struct HINSTANCE__;
__declspec(dllimport) void *GetStdHandle(unsigned n);
__declspec(dllimport) int WriteFile(void *h, const void *b, unsigned n, unsigned *w, void *o);
struct HINSTANCE__ *GetModuleHandleA(char *n);
__declspec(dllimport) int *__p___argc(void);
__declspec(dllimport) char ***__p___argv(void);
__declspec(dllimport) unsigned short ***__p___wargv(void);
static void put(const char *s){ unsigned w, n = 0; while(s[n]) n++; WriteFile(GetStdHandle((unsigned)-11), s, n, &w, 0); WriteFile(GetStdHandle((unsigned)-11), "\n", 1, &w, 0); }
static void putw(const unsigned short *s){ char b[2000]; int n = 0; for(; s[n] && n < 1999; n++) b[n] = (char)s[n]; b[n] = 0; put(b); }
static void crt(void){ char ***a = __p___argv(); unsigned short ***w = __p___wargv(); int n = *__p___argc(); put("="); for(int i = 0; i < n; i++){ put((*a)[i]); putw((*w)[i]); } if((*a)[n] || (*w)[n]) put("!"); }
'''
MAINS = {
    'main': PRINT + 'int main(int argc, char **argv){ for(int i = 0; i < argc; i++) put(argv[i]); if(argv[argc]) put("!"); crt(); return argc + 100; }',
    'wmain': PRINT + 'int wmain(int argc, unsigned short **argv){ for(int i = 0; i < argc; i++) putw(argv[i]); if(argv[argc]) put("!"); crt(); return argc + 100; }',
    'main0': PRINT + 'int main(void){ crt(); return 100 + *__p___argc(); }',
    'wmain0': PRINT + 'int wmain(void){ crt(); return 100 + *__p___argc(); }',
    'main3': PRINT + 'int main(int argc, char **argv, char **envp){ for(int i = 0; i < argc; i++) put(argv[i]); if(argv[argc]) put("!"); put("envp"); for(; *envp; envp++) put(*envp); crt(); return argc + 100; }',
    'wmain3': PRINT + 'int wmain(int argc, unsigned short **argv, unsigned short **envp){ for(int i = 0; i < argc; i++) putw(argv[i]); if(argv[argc]) put("!"); put("envp"); for(; *envp; envp++) putw(*envp); crt(); return argc + 100; }',
    'WinMain': PRINT + 'int WinMain(struct HINSTANCE__ *h, struct HINSTANCE__ *p, char *cmd, int show){ put(cmd); put(h == GetModuleHandleA(0) && !p && show == 7 ? "ok" : "!"); crt(); return 100 + *__p___argc(); }',
    'wWinMain': PRINT + 'int wWinMain(struct HINSTANCE__ *h, struct HINSTANCE__ *p, unsigned short *cmd, int show){ putw(cmd); put(h == GetModuleHandleA(0) && !p && show == 7 ? "ok" : "!"); crt(); return 100 + *__p___argc(); }',
}
ENV = ['A=1', 'EMPTY=', 'B=x y=z']
PROGS = [('a.exe', 'a.exe'), ('"C:\\my dir\\a.exe"', 'C:\\my dir\\a.exe'), ('C:\\d\\a.exe', 'C:\\d\\a.exe')]


def part_quotes(c):
    n = 7 if c.thorough else 5
    strs = [''.join(t) for k in range(n + 1) for t in itertools.product('a "\\', repeat=k)]
    strs += [''.join(t) for k in range(1, 4) for t in itertools.product('a\t "\\', repeat=k) if '\t' in t]
    # hlc itself: every argument is an unknown option (reported) or the first input file (reported as missing)
    hl = [s.replace('a', '-z') for s in strs]

    def hlc(s):
        r = c.e.compile({}, cmd='hlc ' + s, args='')
        c.count()
        key = 'split/hlc/' + repr(s)
        c.seen(key)
        argv = split(s, ' \t')
        want = []
        files = []
        for a in argv:
            if a[:1] == '-':
                want.append(a[2:] if a[1:2] == '-' else a[1:])
            else:
                files.append(a)
        t = r.out.decode('latin1')
        got = re.findall(r"Warning: Unknown command-line option '(.*?)'\.\n", t, re.S)
        bad = []
        if r.kind != 'exit':
            bad.append(f'{r.kind} {r.code}')
        if got != want:
            bad.append(f'options {got}, documented {want}')
        m = re.search(r"Specified (?:input file|path) '(.*)' does not exist", t)
        if files and files[0]:
            f = 'C:/w/' + files[0].replace('\\', '/') if files[0][:1] not in '\\/' else None
            if f and not m or f and m.group(1) != f:
                bad.append(f'first input file {m and m.group(1)!r}, documented {f!r}')
        elif not files and ('No input files' if argv else 'Usage') not in t:
            bad.append('no "No input files"')
        if bad:
            c.violation(key, f'hlc {s}: ' + '; '.join(bad), {'cmdline.txt': 'hlc ' + s})
    for b in chunks(hl, 4000):
        c.e.map(hlc, b)
    c.cov['strings split by hlc'] = len(hl)
    # compiled programs
    imgs = {}
    for k, src in MAINS.items():
        r = c.e.compile({'a.c': src}, 'a.c /quiet /no_debug')
        c.count()
        if not r.ok or 'a.exe' not in r.files:
            c.violation('start/' + k, f'does not compile: {r.kind} {r.code} {r.out[-300:]}', {'a.c': src})
            continue
        imgs[k] = r.files['a.exe']
    full = ('main', 'wmain')

    def prog(x):
        k, (p, pn), s = x
        cmd = p + (' ' + s if s else '')
        r = c.e.run_exe(imgs[k], cmd=cmd)
        c.count()
        key = f'split/{k}/{cmd!r}'
        c.seen(key)
        argv = [pn] + split(s)
        want = []
        if k in ('main', 'wmain', 'main3', 'wmain3'):
            want += argv
        if k.endswith('3'):
            want += ['envp'] + ENV
        if k in ('WinMain', 'wWinMain'):
            want += [s.lstrip(' \t'), 'ok']
        want.append('=')
        for a in argv:
            want += [a, a]
        got = r.out.decode('latin1').split('\n')
        if r.kind != 'exit' or r.code != 100 + len(argv) or got != want + ['']:
            c.violation(key, f'{cmd}: {r.kind} {r.code} {got[:12]}, documented {100 + len(argv)} {want[:12]} {r.errs}', {'a.c': MAINS[k], 'cmdline.txt': cmd})
    jobs = [(k, PROGS[0], s) for k in full for s in strs] + [(k, p, s) for k in MAINS for p in PROGS for s in strs if len(s) <= 3]
    jobs = [j for j in jobs if j[0] in imgs]
    for b in chunks(jobs, 4000):
        c.e.map(prog, b)
    c.cov['strings split by start-up code'] = len(jobs)


def part_files(c):
    """directories, several files, include order, warnings by number"""
    jobs = []
    # /I: in order, before the implicit directories; "" includes look next to the file first
    f = {'a.c': '#include <h.h>\n__declspec(dllexport) char marker[] = "@@" WHERE "@@";', 'h.h': '#define WHERE "own"', 'i1/h.h': '#define WHERE "i1"', 'i2/h.h': '#define WHERE "i2"', 'i3/x.h': ''}
    for n in range(1, 4):
        for t in itertools.permutations(('i1', 'i2', 'i3'), n):
            w = next((x for x in t if x != 'i3'), None)
            for q in '<"':
                g = dict(f)
                if q == '"':
                    g['a.c'] = g['a.c'].replace('<h.h>', '"h.h"')
                exp = 'own' if q == '"' else w
                jobs.append((g, 'a.c /dll /no_entry /no_stdlib /no_debug ' + ' '.join('/I ' + x for x in t), exp))
    def one(x):
        g, args, exp = x
        r = c.e.compile(g, args)
        c.count()
        key = f'include/{g["a.c"][9]}/{args}'
        c.seen(key)
        m = re.search(rb'@@(.*?)@@', r.files.get('a.dll', b''))
        got = m.group(1).decode() if m else None
        if got != exp or r.kind != 'exit':
            c.violation(key, f'hlc {args}: header found in {got}, documented {exp}: {r.kind} {r.code} {r.out[-200:]}', {**g, 'cmdline.txt': args})
    c.e.map(one, jobs)
    c.cov['include directory orders'] = len(jobs)
    # warnings: every subset of {enable, disable} sequences of length 3 for two warnings
    src = 'int f(void){ int zvar; return 1; }\n__declspec(dllexport) int g(void){ int x = 1; { int x = 2; return x; } }\n#define A 1\n#undef B_undefined\n;\n'
    base = c.e.compile({'a.c': src}, 'a.c /dll /no_entry /no_stdlib /no_debug /Wall')
    allw = sorted({int(x) for x in re.findall(r'Warning (\d+) at', base.out.decode('latin1'))})
    dflt = {int(x) for x in re.findall(r'Warning (\d+) at', c.e.compile({'a.c': src}, 'a.c /dll /no_entry /no_stdlib /no_debug').out.decode('latin1'))}
    ops = [('Wall', None), ('Wnone', None)] + [(o, w) for o in ('W', 'Wno') for w in allw]
    seqs = [t for n in range(1, 4) for t in itertools.product(ops, repeat=n)]

    def warn(t):
        args = 'a.c /dll /no_entry /no_stdlib /no_debug ' + ' '.join('/' + o + (f' {w}' if w else '') for o, w in t)
        r = c.e.compile({'a.c': src}, args)
        c.count()
        c.seen('warn/' + args)
        want = set(dflt)
        for o, w in t:
            want = set(allw) if o == 'Wall' else set() if o == 'Wnone' else want | {w} if o == 'W' else want - {w}
        got = {int(x) for x in re.findall(r'Warning (\d+) at', r.out.decode('latin1'))}
        if got != want or not r.ok:
            c.violation('warn/' + args, f'hlc {args}: warnings {sorted(got)}, documented {sorted(want)}', {'a.c': src, 'cmdline.txt': args})
    for b in chunks(seqs, 2000):
        c.e.map(warn, b)
    c.cov['warning option sequences'] = len(seqs)
    c.cov['warnings in the probe'] = allw


def body(c):
    c.cov['rule'] = 'a case is one command line; distinct by its text'
    part_single(c)
    part_tuples(c, 2)
    if c.thorough:
        core = {'no_stdlib', 'no_predefines', 'no_debug', 'no_dynamic_base', 'image_base', 'subsystem', 'out', 'entry', 'no_entry', 'dll', 'obj', 'quiet', 'PFi', 'MD', 'D', 'Wnone', 'syntax_check', 'std'}
        part_tuples(c, 3, lambda x: x[0] in core and x[1] not in ('Windows', 'C11', '4831838208', 'x.y.exe', 'BAR#7', 'sub/f', 'clatest', 'c99', 'c17', 'FOO'))
    part_errors(c)
    part_files(c)
    part_quotes(c)


if __name__ == '__main__':
    main('C18', 'exploration', body, variants=('plain',), need_ref=False)
