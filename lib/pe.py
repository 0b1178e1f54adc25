"""A strict reader of PE32+ images: every inconsistency is reported."""
import struct


class Bad(Exception):
    pass


UW = {0: 'push', 1: 'alloc_large', 2: 'alloc_small', 3: 'setfp', 4: 'save', 5: 'save_far', 8: 'xmm', 9: 'xmm_far', 10: 'machframe'}


class PE:
    def __init__(self, d, dll=None, name=None):
        self.d = d
        self.errs = []
        self.parse()
        self.check()

    def e(self, cond, what):
        if not cond:
            self.errs.append(what)
        return cond

    def u(self, fmt, off):
        n = struct.calcsize('<' + fmt)
        if off < 0 or off + n > len(self.d):
            raise Bad(f'read outside of the file at {off:#x}')
        r = struct.unpack_from('<' + fmt, self.d, off)
        return r[0] if len(r) == 1 else r

    def parse(self):
        d = self.d
        if d[:2] != b'MZ':
            raise Bad('no MZ')
        pe = self.pe = self.u('I', 0x3c)
        self.e(pe % 8 == 0, 'PE header not 8 byte aligned')
        if d[pe:pe + 4] != b'PE\0\0':
            raise Bad('no PE signature')
        self.machine, self.nsec, self.stamp, self.symptr, self.nsym, self.ohs, self.chars = self.u('HHIIIHH', pe + 4)
        oh = pe + 24
        (self.magic, _, _, self.size_code, self.size_init, self.size_uninit, self.entry, self.base_code, self.base, self.salign, self.falign, _, _, _, _, self.ssmaj, _, self.w32, self.size_image, self.size_headers, self.checksum, self.subsystem, self.dllchars,
         self.stack_res, self.stack_com, self.heap_res, self.heap_com, self.loader, self.ndir) = self.u('HBBIIIIIQIIHHHHHHIIIIHHQQQQII', oh)
        self.dirs = [self.u('II', oh + 112 + 8 * i) if i < self.ndir else (0, 0) for i in range(16)]
        self.secs = []
        so = oh + self.ohs
        for i in range(self.nsec):
            nm, vs, va, rs, ro, _, _, _, _, ch = self.u('8sIIIIIIHHI', so + 40 * i)
            self.secs.append(dict(name=nm.rstrip(b'\0').decode('latin1'), vs=vs, va=va, rs=rs, ro=ro, ch=ch))
        self.headers_end = so + 40 * self.nsec

    def sec(self, rva, n=1, what='', need=0):
        for s in self.secs:
            if s['va'] <= rva and rva + n <= s['va'] + s['vs']:
                if need and not s['ch'] & need:
                    self.errs.append(f'{what} {rva:#x} lies in {s["name"]} ({s["ch"]:#x})')
                return s
        self.errs.append(f'{what} {rva:#x}+{n:#x} lies outside of the sections')
        return None

    def at(self, rva, n):
        """n bytes of the loaded image (unrelocated)"""
        for s in self.secs:
            if s['va'] <= rva and rva + n <= s['va'] + s['vs']:
                o = rva - s['va']
                b = self.d[s['ro'] + o:s['ro'] + min(s['rs'], s['vs'])][:n] if o < s['rs'] else b''
                return b + b'\0' * (n - len(b))
        raise Bad(f'read of {n} bytes at rva {rva:#x} outside of the sections')

    def ru(self, fmt, rva):
        r = struct.unpack('<' + fmt, self.at(rva, struct.calcsize('<' + fmt)))
        return r[0] if len(r) == 1 else r

    def cstr(self, rva):
        o = b''
        while True:
            c = self.at(rva, 1)
            if c == b'\0':
                return o
            o += c
            rva += 1
            if len(o) > 4096:
                raise Bad('unterminated string')

    def check(self):
        e = self.e
        e(self.machine == 0x8664, 'machine')
        e(self.magic == 0x20b, 'magic')
        e(self.ohs == 112 + 8 * self.ndir and self.ndir == 16, f'size of optional header {self.ohs:#x} with {self.ndir} directories')
        e(self.symptr == 0 and self.nsym == 0, 'COFF symbols in an image')
        e(self.salign == 0x1000 and self.falign in (512, 1024, 2048, 4096), 'alignments')
        e(self.w32 == 0 and self.loader == 0, 'reserved fields')
        e(self.base % 0x10000 == 0, f'image base {self.base:#x}')
        e(self.size_headers % self.falign == 0 and self.headers_end <= self.size_headers <= len(self.d), f'size of headers {self.size_headers:#x}')
        e(self.chars & 2, 'not executable')
        va, ro = (self.size_headers + 0xfff) & ~0xfff, self.size_headers
        code = init = uninit = 0
        for s in self.secs:
            n = s['name']
            e(s['va'] == va, f'section {n} at {s["va"]:#x}, expected {va:#x} (sections must be adjacent)')
            e(s['vs'] > 0, f'section {n} is empty')
            va = (s['va'] + s['vs'] + 0xfff) & ~0xfff
            e(s['rs'] % self.falign == 0, f'raw size of {n}')
            if s['rs']:
                e(s['ro'] % self.falign == 0 and s['ro'] >= ro and s['ro'] + s['rs'] <= len(self.d), f'raw data of {n}: {s["ro"]:#x}+{s["rs"]:#x} in a file of {len(self.d):#x}')
                ro = s['ro'] + s['rs']
                e(s['rs'] < s['vs'] + self.falign, f'raw size of {n}')
            else:
                e(s['ro'] == 0, f'raw pointer of {n}')
            if s['ch'] & 0x20:
                code += s['rs']
            if s['ch'] & 0x40:
                init += s['rs']
            if s['ch'] & 0x80:
                uninit += s['vs']
                e(s['rs'] == 0, f'raw data in {n}')
            elif s['rs'] == 0:
                e(0, f'no raw data in {n}')
            e(bool(s['ch'] & 0x20000000) == bool(s['ch'] & 0x20), f'characteristics of {n}')
            e(s['ch'] & 0x40000000, f'{n} is not readable')
            e(not (s['ch'] & 0x20000000 and s['ch'] & 0x80000000), f'{n} is writable and executable')
        e(self.size_image == va, f'size of image {self.size_image:#x}, expected {va:#x}')
        if self.entry:
            self.sec(self.entry, 1, 'entry point', 0x20000000)
        self.dll = bool(self.chars & 0x2000)
        e(bool(self.entry) or self.dll, 'no entry point')
        e(bool(self.dllchars & 0x40) != bool(self.chars & 1), 'relocations stripped and dynamic base do not agree')
        for i, (r, n) in enumerate(self.dirs):
            e((r == 0) == (n == 0) or (i == 3 and n == 0), f'directory {i}: {r:#x} {n:#x}')   # an exception directory without entries is ignored
            if n and i != 4:
                self.sec(r, n, f'directory {i}')
        self.imports()
        self.exports()
        self.relocs()
        self.tls()
        self.pdata()
        self.debug()

    def imports(self):
        self.imp = {}
        self.iat = {}
        r, n = self.dirs[1]
        if not r:
            return
        self.e(n % 20 == 0, 'size of the import directory')
        i = 0
        seen = set()
        while True:
            lt, ts, fw, nm, ia = self.ru('IIIII', r + 20 * i)
            if not nm:
                self.e((lt, ts, fw, ia) == (0, 0, 0, 0), 'import terminator')
                break
            name = self.cstr(nm).decode('latin1').lower()
            self.e(name not in self.imp, f'{name} imported twice')
            self.e(lt != ia, 'lookup table is the address table')
            self.e(ia % 8 == 0 and lt % 8 == 0, 'alignment of the import tables')
            l = []
            k = 0
            while True:
                a, b = self.ru('Q', lt + 8 * k), self.ru('Q', ia + 8 * k)
                self.e(a == b, 'import tables differ')
                self.e(ia + 8 * k not in seen and lt + 8 * k not in seen, 'import tables overlap')
                seen |= {ia + 8 * k, lt + 8 * k}
                if not a:
                    break
                if a >> 63:
                    x = a & 0xffff
                    self.e(a & ~(1 << 63) == x, 'ordinal import')
                else:
                    self.e(a % 2 == 0, 'alignment of an import name')
                    x = self.cstr(a + 2).decode('latin1')
                    self.e(x != '', 'empty import name')
                self.e(x not in l, f'{name}!{x} imported twice')
                l.append(x)
                self.iat[ia + 8 * k] = (name, x)
                k += 1
            self.imp[name] = l
            i += 1
        self.e(n == 20 * (i + 1), f'size of the import directory {n} with {i} dlls')

    def exports(self):
        self.exp = {}
        r, n = self.dirs[0]
        if not r:
            return
        fl, ts, vv, nm, ob, nf, nn, fa, na, oa = self.ru('IIIIIIIIII', r)
        self.cstr(nm)
        self.e(ob == 1 and fl == 0, 'export header')
        names = []
        for i in range(nn):
            s = self.cstr(self.ru('I', na + 4 * i))
            o = self.ru('H', oa + 2 * i)
            if not self.e(o < nf, 'export ordinal'):
                continue
            f = self.ru('I', fa + 4 * o)
            self.e(not r <= f < r + n, 'forwarder')
            self.sec(f, 1, 'export')
            names.append(s)
            self.exp[s.decode('latin1')] = f
        self.e(names == sorted(names), f'export names are not sorted: {names}')
        self.e(len(set(names)) == len(names), 'duplicate export')

    def relocs(self):
        self.rel = []
        r, n = self.dirs[5]
        if not r:
            return
        self.e(not self.chars & 1, 'relocations are stripped but there is a relocation directory')
        s = self.sec(r, n, 'relocations')
        end = r + n
        pages = set()
        while r < end:
            page, size = self.ru('II', r)
            if not self.e(size >= 8 and size % 4 == 0 and r + size <= end, f'relocation block size {size:#x}'):
                break
            self.e(page % 0x1000 == 0, 'relocation page')
            ents = [self.ru('H', r + 8 + 2 * i) for i in range((size - 8) // 2)]
            for i, x in enumerate(ents):
                t = x >> 12
                if t == 0:
                    self.e(i == len(ents) - 1 and x == 0, 'padding inside of a relocation block')
                    continue
                if not self.e(t == 10, f'relocation type {t}'):
                    continue
                a = page + (x & 0xfff)
                self.e(a not in pages, f'{a:#x} is relocated twice')
                pages.add(a)
                q = self.sec(a, 8, 'relocation')
                if q:
                    self.e(not q['ch'] & 0x80, 'relocation in .bss')
                    v = self.ru('Q', a)
                    # one past the end of the last object is still inside of, or at the end of, the image
                    self.e(self.base <= v <= self.base + self.size_image, f'the relocated value {v:#x} at {a:#x} is not in the image')
                self.rel.append(a)
            r += size
        l = sorted(pages)
        self.e(all(b - a >= 8 for a, b in zip(l, l[1:])), 'relocations overlap')

    def tls(self):
        r, n = self.dirs[9]
        self.tlsdir = None
        if not r:
            return
        self.e(n == 40 and r % 8 == 0, 'TLS directory')
        a, b, idx, cb, zf, ch = self.ru('QQQQII', r)
        self.tlsdir = (a, b, idx, cb, zf, ch)
        B = self.base
        self.e(a <= b, 'TLS data')
        if b > a:
            self.sec(a - B, b - a, 'TLS data')
        s = self.sec(idx - B, 4, 'TLS index', 0x80000000)
        self.e(idx % 4 == 0, 'TLS index alignment')
        if cb:
            self.sec(cb - B, 8, 'TLS callbacks')
            while True:
                f = self.ru('Q', cb - B)
                if not f:
                    break
                self.sec(f - B, 1, 'TLS callback', 0x20000000)
                cb += 8
        if self.dllchars & 0x40:
            for i, v in enumerate((a, b, idx, cb)):
                self.e(not v or r + 8 * i in self.rel, 'TLS directory is not relocated')

    def pdata(self):
        self.fns = []
        r, n = self.dirs[3]
        if not n:
            return
        self.e(n % 12 == 0 and r % 4 == 0, 'exception directory')
        last = 0
        for i in range(n // 12):
            b, en, u = self.ru('III', r + 12 * i)
            self.e(b < en, f'runtime function {b:#x}..{en:#x}')
            self.e(b >= last, f'runtime functions are not sorted at {b:#x}')
            last = en
            self.sec(b, en - b, 'runtime function', 0x20000000)
            self.fns.append((b, en, self.unwind(u, b, en)))

    def unwind(self, u, b, en):
        self.e(u % 4 == 0, 'unwind info alignment')
        self.sec(u, 4, 'unwind info')
        vf, prolog, cnt, fr = self.ru('BBBB', u)
        ver, flags = vf & 7, vf >> 3
        self.e(ver == 1, f'unwind version {ver}')
        self.e(prolog <= en - b, 'prolog is longer than the function')
        codes = []
        i = 0
        last = 256
        while i < cnt:
            off, op = self.ru('BB', u + 4 + 2 * i)
            info, op = op >> 4, op & 15
            if not self.e(op in UW, f'unwind code {op}'):
                break
            self.e(off <= prolog, 'unwind code outside of the prolog')
            self.e(off <= last, 'unwind codes are not sorted')
            last = off
            ext = {1: 2 if info else 1, 4: 1, 5: 2, 8: 1, 9: 2}.get(op, 0)
            val = 0
            if i + ext >= cnt and ext:
                self.e(0, 'unwind codes are cut off')
                break
            if ext == 1:
                val = self.ru('H', u + 6 + 2 * i)
            elif ext == 2:
                val = self.ru('I', u + 6 + 2 * i)
            codes.append((off, UW[op], info, val))
            i += 1 + ext
        n = 4 + 2 * (cnt + (cnt & 1))
        handler = None
        if flags & 3:
            self.e(not flags & 4, 'chained with handler')
            h = self.ru('I', u + n)
            handler = h
            self.sec(h, 1, 'exception handler', 0x20000000)
        return dict(prolog=prolog, codes=codes, frame=fr & 15, frame_off=(fr >> 4) * 16, flags=flags, handler=handler, data=u + n + 4, rva=u)

    def debug(self):
        self.dbg = []
        r, n = self.dirs[6]
        if not r:
            return
        self.e(n % 28 == 0, 'debug directory')
        for i in range(n // 28):
            ch, ts, v1, t, size, rva, ptr = self.ru('IIIIIII', r + 28 * i)
            s = self.sec(rva, size, 'debug data')
            if s:
                self.e(ptr == s['ro'] + rva - s['va'], 'file position of the debug data')
            self.e(ch == 0, 'debug characteristics')
            self.dbg.append((t, self.at(rva, size)))
            if t == 2:
                self.e(self.at(rva, 4) == b'RSDS' and self.at(rva + size - 1, 1) == b'\0', 'RSDS record')


def check(d):
    """list of inconsistencies"""
    try:
        p = PE(d)
        return p, p.errs
    except Bad as x:
        return None, [str(x)]
