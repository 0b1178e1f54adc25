"""Reference toolchain: clang-18 + lld-link targeting x86_64-pc-windows-msvc (independent of hlc)."""
import os, subprocess, threading, hashlib
import hx

RT = r'''
typedef unsigned long long u64;
int _fltused = 0x9875;
#pragma function(memcpy, memset, memmove, memcmp)
void *memcpy(void *d, const void *s, u64 n){ char *a = d; const char *b = s; while(n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, u64 n){ char *a = d; const char *b = s; if(a < b) while(n--) *a++ = *b++; else while(n--) a[n] = b[n]; return d; }
void *memset(void *d, int v, u64 n){ char *a = d; while(n--) *a++ = (char)v; return d; }
int memcmp(const void *d, const void *s, u64 n){ const unsigned char *a = d, *b = s; for(; n--; a++, b++) if(*a != *b) return *a - *b; return 0; }
u64 strlen(const char *s){ u64 n = 0; while(s[n]) n++; return n; }
int _tls_index;
__asm__(".globl __chkstk\n__chkstk:\nret\n");
'''
CF = ['--target=x86_64-pc-windows-msvc', '-w', '-fms-extensions', '-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off', '-fno-builtin', '-mcx16', '-mno-stack-arg-probe',
      '-fno-delete-null-pointer-checks', '-Xclang', '-fno-trigraphs' if False else '-w']
CF = [c for c in CF if c != '-Xclang']


class RefError(Exception):
    pass


class Ref:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, 'ref')
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        self.lock = threading.Lock()
        self.rt = os.path.join(self.dir, 'rt.obj')
        f = os.path.join(self.dir, 'rt.c')
        open(f, 'w').write(RT)
        self._run(['clang-18'] + CF + ['-O1', '-c', f, '-o', self.rt])

    def _run(self, cmd, check=True):
        p = hx.tool(cmd, mb=512, secs=200, merge=True, mem=16)
        if check and p.returncode:
            raise RefError(' '.join(cmd) + '\n' + p.stdout.decode('latin1')[-3000:])
        return p

    def fresh(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f'r{self.n}')

    def obj(self, src, opt='-O0', flags=(), files=None):
        b = self.fresh()
        inc = []
        if files:
            os.makedirs(b + '.d', exist_ok=True)
            for n, d in files.items():
                p = os.path.join(b + '.d', n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(d if isinstance(d, bytes) else d.encode('latin1'))
            inc = ['-I', b + '.d']
        open(b + '.c', 'wb').write(src if isinstance(src, bytes) else src.encode('latin1'))
        try:
            self._run(['clang-18'] + CF + [opt] + inc + list(flags) + ['-c', b + '.c', '-o', b + '.obj'])
            return open(b + '.obj', 'rb').read()
        finally:
            for x in ('.c', '.obj'):
                try:
                    os.unlink(b + x)
                except OSError:
                    pass

    def link(self, objs, args=('/dll', '/noentry'), rt=True, out='.dll', ok=True):
        b = self.fresh()
        names = []
        for i, o in enumerate(objs):
            f = f'{b}_{i}.obj'
            open(f, 'wb').write(o)
            names.append(f)
        try:
            p = self._run(['lld-link-18', '/nodefaultlib', '/nologo', '/machine:x64'] + list(args) + [f'/out:{b}{out}'] + names + ([self.rt] if rt else []), check=ok)
            if p.returncode:
                return None, p.stdout.decode('latin1')
            d = open(b + out, 'rb').read()
            return d if ok else (d, '')
        finally:
            for f in names + [b + out, b + '.lib']:
                try:
                    os.unlink(f)
                except OSError:
                    pass

    def dll(self, src, opt='-O0', flags=(), files=None):
        return self.link([self.obj(src, opt, flags, files)])
