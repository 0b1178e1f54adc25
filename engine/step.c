// Single stepping of compiled images (unwinding at every instruction, exceptions at every instruction, another thread's
// operation at every instruction) and the Windows exception machinery: an independent unwinder, dispatcher and __C_specific_handler.
#include "hx.h"
extern Image main_image; extern int seh_enabled;
typedef struct { u64 home[6]; u32 flags, mxcsr; u16 seg[6]; u32 eflags; u64 dr[6]; u64 r[16]; u64 rip; u8 fx[512]; u8 rest[0x4d0 - 0x300]; } __attribute__((aligned(16))) Ctx;
typedef struct { u32 code, flags; void *rec, *addr; u32 n, pad; u64 info[15]; } Rec;
typedef struct { u64 pc, base; u32 *fe; u64 frame, target; Ctx *ctx; void *handler, *data, *hist; u32 scope, fill; } Disp;
typedef struct { Rec *rec; Ctx *ctx; } Ptrs;
_Static_assert(sizeof(Ctx) == 0x4d0 && offsetof(Ctx, r) == 0x78 && offsetof(Ctx, fx) == 0x100, "");
#define XMM(c, i) ((c)->fx + 0xa0 + 16 * (i))
static int in_image(u64 a){ return main_image.base && a - (u64)main_image.base < main_image.size; }

static u32 *lookup(u64 pc){
    if(!in_image(pc) || !main_image.pdata_size) return 0;
    u32 rva = (u32)(pc - (u64)main_image.base); u32 *t = (u32 *)(main_image.base + main_image.pdata_rva);
    for(u32 i = 0; i < main_image.pdata_size / 12; i++) if(t[3 * i] <= rva && rva < t[3 * i + 1]) return t + 3 * i;
    return 0; }

// Follows the documented procedure for x64 unwinding. Returns an error text or 0.
static const char *unwind(Ctx *c, u64 *frame, u8 **handler, u8 **data){
    *handler = 0; *data = 0;
    u32 *f = lookup(c->rip);
    if(!f){ *frame = c->r[4]; c->rip = *(u64 *)c->r[4]; c->r[4] += 8; return 0; }
    u32 off = (u32)(c->rip - (u64)main_image.base) - f[0];
    u32 *fe = f; int chained = 0;
    for(;;){
        if(fe[2] >= main_image.size) return "unwind information outside the image";
        u8 *u = main_image.base + fe[2]; int ver = u[0] & 7, flags = u[0] >> 3; u32 prolog = u[1], n = u[2]; int fr = u[3] & 15; u32 fo = (u32)(u[3] >> 4) * 16;
        if(ver != 1) return "unwind version is not 1";
        u8 *codes = u + 4;
        if(!chained && off >= prolog){ // in the body: is this an epilogue?
            u8 *p = (u8 *)c->rip; int st = 0; Ctx t = *c; int ok = 1;
            if((p[0] & 0xfb) == 0x48 && p[1] == 0x83 && p[2] == 0xc4 && p[0] == 0x48){ t.r[4] += (u64)(s64)(s8)p[3]; p += 4; }
            else if(p[0] == 0x48 && p[1] == 0x81 && p[2] == 0xc4){ s32 d; memcpy(&d, p + 3, 4); t.r[4] += (u64)(s64)d; p += 7; }
            else if((p[0] & 0xfe) == 0x48 && p[1] == 0x8d && fr && (p[2] >> 3 & 7) == 4 && (p[2] & 7) == (fr & 7) && (p[2] >> 6) && ((p[0] & 1) == fr >> 3)){ s32 d; if(p[2] >> 6 == 1){ d = (s8)p[3]; p += 4; } else { memcpy(&d, p + 3, 4); p += 7; } t.r[4] = t.r[fr] + (u64)(s64)d; }
            while(ok){
                if((p[0] & 0xf8) == 0x58){ t.r[p[0] & 7] = *(u64 *)t.r[4]; t.r[4] += 8; p++; st++; }
                else if(p[0] == 0x41 && (p[1] & 0xf8) == 0x58){ t.r[8 + (p[1] & 7)] = *(u64 *)t.r[4]; t.r[4] += 8; p += 2; st++; }
                else break; }
            if(p[0] == 0xc3 || p[0] == 0xc2 || (p[0] == 0xf3 && p[1] == 0xc3) || (p[0] == 0xff && p[1] == 0x25)){ t.rip = *(u64 *)t.r[4]; t.r[4] += 8; *c = t; *frame = c->r[4]; return 0; }
        }
        int setfp = 0; for(u32 i = 0; i < n; ){ int op = codes[2 * i + 1] & 15, inf = codes[2 * i + 1] >> 4; if(op == 3 && (chained || off >= codes[2 * i])) setfp = 1; i += op == 1 ? (inf ? 3 : 2) : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1; }
        if(!chained) *frame = fr && (off >= prolog || setfp) ? c->r[fr] - fo : c->r[4];
        for(u32 i = 0; i < n; ){
            u32 co = codes[2 * i]; int op = codes[2 * i + 1] & 15, inf = codes[2 * i + 1] >> 4; u8 *x = codes + 2 * i + 2; u32 w16 = (u32)x[0] | (u32)x[1] << 8, w32 = w16 | (u32)x[2] << 16 | (u32)x[3] << 24;
            int skip = !chained && off < co; // the instruction of this code has not been executed yet
            int len = op == 1 ? (inf ? 3 : 2) : op == 4 || op == 8 ? 2 : op == 5 || op == 9 ? 3 : 1; i += (u32)len; if(i > n) return "truncated unwind codes";
            if(skip) continue;
            switch(op){
                case 0: c->r[inf] = *(u64 *)c->r[4]; c->r[4] += 8; break;
                case 1: c->r[4] += inf ? w32 : w16 * 8; break;
                case 2: c->r[4] += (u64)inf * 8 + 8; break;
                case 3: if(!fr) return "UWOP_SET_FPREG without frame register"; c->r[4] = c->r[fr] - fo; break;
                case 4: c->r[inf] = *(u64 *)(*frame + w16 * 8); break;
                case 5: c->r[inf] = *(u64 *)(*frame + w32); break;
                case 8: memcpy(XMM(c, inf), (u8 *)*frame + w16 * 16, 16); break;
                case 9: memcpy(XMM(c, inf), (u8 *)*frame + w32, 16); break;
                default: return "unknown unwind code"; } }
        u8 *tail = codes + 2 * ((n + 1) & ~1u);
        if(flags & 4){ fe = (u32 *)tail; chained = 1; continue; }
        if((flags & 3) && off >= prolog){ u32 h; memcpy(&h, tail, 4); if(h >= main_image.size) return "handler outside the image"; *handler = main_image.base + h; *data = tail + 4; }
        break;
    }
    c->rip = *(u64 *)c->r[4]; c->r[4] += 8; return 0; }

// ---------------------------------------------------------------- exceptions
void seh_restore(Ctx *c) __attribute__((noreturn));
__asm__(".text\n.globl seh_restore\nseh_restore:\n fxrstor 0x100(%rdi)\n mov %rdi,%rax\n mov 0x98(%rax),%rcx\n sub $16,%rcx\n mov 0xf8(%rax),%rdx\n mov %rdx,8(%rcx)\n mov 0x44(%rax),%edx\n mov %rdx,(%rcx)\n"
        " mov 0x90(%rax),%rbx\n mov 0xa0(%rax),%rbp\n mov 0xa8(%rax),%rsi\n mov 0xb0(%rax),%rdi\n mov 0xb8(%rax),%r8\n mov 0xc0(%rax),%r9\n mov 0xc8(%rax),%r10\n mov 0xd0(%rax),%r11\n mov 0xd8(%rax),%r12\n mov 0xe0(%rax),%r13\n mov 0xe8(%rax),%r14\n mov 0xf0(%rax),%r15\n mov 0x88(%rax),%rdx\n"
        " mov %rcx,%rsp\n mov 0x80(%rax),%rcx\n mov 0x78(%rax),%rax\n popfq\n ret\n"
        ".globl seh_RaiseException\nseh_RaiseException:\n sub $0x4d8,%rsp\n mov %rax,0x78(%rsp)\n mov %rcx,0x80(%rsp)\n mov %rdx,0x88(%rsp)\n mov %rbx,0x90(%rsp)\n mov %rbp,0xa0(%rsp)\n mov %rsi,0xa8(%rsp)\n mov %rdi,0xb0(%rsp)\n mov %r8,0xb8(%rsp)\n mov %r9,0xc0(%rsp)\n mov %r10,0xc8(%rsp)\n mov %r11,0xd0(%rsp)\n"
        " mov %r12,0xd8(%rsp)\n mov %r13,0xe0(%rsp)\n mov %r14,0xe8(%rsp)\n mov %r15,0xf0(%rsp)\n fxsave 0x100(%rsp)\n lea 0x4e0(%rsp),%rax\n mov %rax,0x98(%rsp)\n mov 0x4d8(%rsp),%rax\n mov %rax,0xf8(%rsp)\n pushfq\n pop %rax\n mov %eax,0x44(%rsp)\n"
        " mov %ecx,%edi\n mov %edx,%esi\n mov %r8d,%edx\n mov %r9,%rcx\n mov %rsp,%r8\n call seh_raise_c\n");
static u64 dispatches; static int resumed, keep_tf;
static void resume(Ctx *c) __attribute__((noreturn));
static void resume(Ctx *c){ resumed = 1; if(keep_tf) c->eflags |= 0x100; seh_restore(c); }
void seh_dispatch(Rec *rec, Ctx *orig) __attribute__((noreturn, used));
static void unhandled(Rec *rec, Ctx *c, const char *w){ if(w) put('e', w, strlen(w)); R->rip = in_image((u64)rec->addr) ? (u64)rec->addr - (u64)main_image.base : (u64)rec->addr; R->addr = rec->n > 1 ? rec->info[1] : 0; (void)c; finish(2, rec->code); }
void seh_dispatch(Rec *rec, Ctx *orig){
    Ctx c = *orig; dispatches++;
    for(int depth = 0; depth < 100000; depth++){
        if(!in_image(c.rip) && (depth || c.rip > 4095)) unhandled(rec, orig, 0); // a call of a null pointer is unwound as a leaf function
        Ctx before = c; u64 frame; u8 *h, *data; u32 *fe = lookup(c.rip);
        const char *e = unwind(&c, &frame, &h, &data); if(e) unhandled(rec, orig, e);
        if(h){
            Disp d = { before.rip, (u64)main_image.base, fe, frame, 0, &c, h, data, &before, 0, 0 }; // the history table is opaque to handlers: it carries the context of the frame
            int r = ((MS int (*)(Rec *, u64, Ctx *, Disp *))h)(rec, frame, orig, &d);
            if(r == 0) resume(orig);
            if(r != 1) unhandled(rec, orig, "bad disposition"); }
    }
    unhandled(rec, orig, "endless unwinding"); }
void seh_raise_c(u32 code, u32 flags, u32 n, u64 *p, Ctx *c) __attribute__((used));
void seh_raise_c(u32 code, u32 flags, u32 n, u64 *p, Ctx *c){ Rec r = { code, flags & 1, 0, (void *)c->rip, p ? n & 15 : 0, 0, { 0 } }; for(u32 i = 0; i < r.n; i++) r.info[i] = p[i]; c->mxcsr = 0x1f80; seh_dispatch(&r, c); }
MS int c_specific_handler(Rec *rec, u64 frame, Ctx *ctx, Disp *d){
    u32 *s = d->data; u32 pc = (u32)(d->pc - d->base);
    if(rec->flags & 0x66) return 1;
    for(u32 i = 0; i < s[0]; i++){
        u32 *e = s + 1 + 4 * i;
        if(pc < e[0] || pc >= e[1] || !e[3]) continue;
        s32 v = 1;
        if(e[2] != 1){ Ptrs p = { rec, ctx }; v = ((MS s32 (*)(Ptrs *, u64))(main_image.base + e[2]))(&p, frame); }
        if(v < 0) return 0;
        if(v > 0){ Ctx t = *(Ctx *)d->hist; t.rip = (u64)main_image.base + e[3]; t.r[0] = rec->code; memcpy(t.fx, ctx->fx, 32); t.eflags &= ~0x100u; resume(&t); } }
    return 1; }

static void from_uc(Ctx *c, ucontext_t *uc){
    greg_t *g = uc->uc_mcontext.gregs; memset(c, 0, sizeof *c);
    static const int m[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
    for(int i = 0; i < 16; i++) c->r[i] = (u64)g[m[i]];
    c->rip = (u64)g[REG_RIP]; c->eflags = (u32)g[REG_EFL] & ~0x100u; memcpy(c->fx, uc->uc_mcontext.fpregs, 512); memcpy(&c->mxcsr, c->fx + 24, 4); }
static int has_handlers(void){ u32 *t = (u32 *)(main_image.base + main_image.pdata_rva); for(u32 i = 0; i < main_image.pdata_size / 12; i++) if(main_image.base[t[3 * i + 2]] >> 3 & 3) return 1; return 0; }
// continue with the dispatcher on the stack of the faulting code
static void redirect(ucontext_t *uc, Rec *rec){
    greg_t *g = uc->uc_mcontext.gregs; u64 sp = ((u64)g[REG_RSP] - sizeof(Ctx) - sizeof(Rec) - 256) & ~63ull;
    Ctx *c = (Ctx *)sp; Rec *r = (Rec *)(sp + sizeof(Ctx) + 16); from_uc(c, uc); *r = *rec;
    g[REG_RDI] = (greg_t)r; g[REG_RSI] = (greg_t)c; g[REG_RSP] = (greg_t)(sp - 8); g[REG_RIP] = (greg_t)seh_dispatch; if(!keep_tf) g[REG_EFL] &= ~0x100ll; }
int seh_try_dispatch(int sig, siginfo_t *si, ucontext_t *uc){
    greg_t *g = uc->uc_mcontext.gregs; u64 rip = (u64)g[REG_RIP];
    if(!seh_enabled || !main_image.pdata_size || dispatches > 100000) return 0;
    if(sig == SIGTRAP && in_image(rip)){ g[REG_RIP] -= 1; rip -= 1; }
    if(!in_image(rip) && !(rip < 4096 && sig == SIGSEGV)) return 0;
    if(!has_handlers()) { if(sig == SIGTRAP) g[REG_RIP] += 1; return 0; }
    Rec r = { 0 }; r.addr = (void *)rip;
    if(sig == SIGSEGV || sig == SIGBUS){ r.code = 0xC0000005; r.n = 2; r.info[0] = (u64)g[REG_ERR] >> 1 & 1; r.info[1] = (u64)si->si_addr; }
    else r.code = sig == SIGFPE ? 0xC0000094 : sig == SIGILL ? 0xC000001D : 0x80000003;
    redirect(uc, &r); return 1; }

// ---------------------------------------------------------------- stepping
static u64 mode, param, nstep; static int done; static u8 *buf; static u32 *trace; static u32 ntrace, captrace;
typedef struct { u64 off, size, op, val, mid; } Env; static Env env3; static u64 other_old; static int other_done;
typedef struct { u64 ret, sp, rbx, rbp, rsi, rdi, r12, r13, r14, r15, prev_rip; u8 xmm[160]; } Frame;
static Frame *fr; static u32 nfr; static u64 prev_rip, prev_in;
static u64 loadn(u8 *p, u64 n){ u64 v = 0; memcpy(&v, p, n); return v; }
static u8 *other_at(void){ return (env3.op & 0x100 ? main_image.base : buf) + env3.off; } // op bit 8: the location is in the image
static void other(void){ u8 *p = other_at(); u64 o = loadn(p, env3.size), n; other_old = o; other_done = 1;
    switch(env3.op & 0xff){ case 0: n = env3.val; break; case 1: n = o + env3.val; break; case 2: n = o ^ env3.val; break; case 3: n = o & env3.val; break; default: n = o | env3.val; }
    memcpy(p, &n, env3.size); }
static void bad(const char *w, u64 rip, Frame *f, Ctx *c){ char t[400]; int n = snprintf(t, sizeof t, "%s at rva %llx: rip %llx/%llx rsp %llx/%llx rbx %llx/%llx rbp %llx/%llx rsi %llx/%llx rdi %llx/%llx r12 %llx/%llx r15 %llx/%llx", w, (unsigned long long)(rip - (u64)main_image.base), (unsigned long long)c->rip, (unsigned long long)f->ret, (unsigned long long)c->r[4], (unsigned long long)f->sp, (unsigned long long)c->r[3], (unsigned long long)f->rbx, (unsigned long long)c->r[5], (unsigned long long)f->rbp, (unsigned long long)c->r[6], (unsigned long long)f->rsi, (unsigned long long)c->r[7], (unsigned long long)f->rdi, (unsigned long long)c->r[12], (unsigned long long)f->r12, (unsigned long long)c->r[15], (unsigned long long)f->r15);
    put('e', t, (u64)n); R->rip = rip - (u64)main_image.base; R->aux[0] = nstep; finish(4, 77); }
static int same(Frame *f, Ctx *c){ return c->rip == f->ret && c->r[4] == f->sp && c->r[3] == f->rbx && c->r[5] == f->rbp && c->r[6] == f->rsi && c->r[7] == f->rdi && c->r[12] == f->r12 && c->r[13] == f->r13 && c->r[14] == f->r14 && c->r[15] == f->r15 && !memcmp(XMM(c, 6), f->xmm, 160); }
static struct { u64 ret, sp; } api[64]; static u32 napi;
static void unwind_step(Ctx *c){
    int from_api = 0;
    if(resumed){ resumed = 0; prev_in = 1; prev_rip = (u64)"\x90"; while(nfr && fr[nfr - 1].sp <= c->r[4]) nfr--; napi = 0; from_api = 1; }
    else if(!prev_in && napi && api[napi - 1].ret == c->rip && api[napi - 1].sp == c->r[4]){ napi--; from_api = 1; }
    // a call from outside, a call instruction, or a return?
    if(nfr && c->rip == fr[nfr - 1].ret && c->r[4] == fr[nfr - 1].sp){ Frame *f = &fr[nfr - 1]; if(!same(f, c)) bad("non-volatile registers changed by a function", prev_rip, f, c); nfr--; }
    else { int call = !prev_in && !from_api; u8 *p = (u8 *)prev_rip; if(prev_in){ if((p[0] & 0xf0) == 0x40) p++; if(p[0] == 0xe8 || (p[0] == 0xff && (p[1] >> 3 & 7) == 2)) call = 1; if(call && c->rip == fr[nfr ? nfr - 1 : 0].ret) call = 0; }
        if(call){ if(nfr >= 4000) return; Frame *f = &fr[nfr++]; f->ret = *(u64 *)c->r[4]; f->sp = c->r[4] + 8; f->rbx = c->r[3]; f->rbp = c->r[5]; f->rsi = c->r[6]; f->rdi = c->r[7]; f->r12 = c->r[12]; f->r13 = c->r[13]; f->r14 = c->r[14]; f->r15 = c->r[15]; memcpy(f->xmm, XMM(c, 6), 160); } }
    if(!nfr) return;
    Ctx t = *c; u64 frame; u8 *h, *d; const char *e = unwind(&t, &frame, &h, &d);
    if(e) bad(e, c->rip, &fr[nfr - 1], &t);
    if(!same(&fr[nfr - 1], &t)) bad("unwinding recovers a wrong state", c->rip, &fr[nfr - 1], &t);
    for(u32 k = nfr - 1, n = 0; k > 0 && n < 40 && in_image(t.rip); k--, n++){ // the callers
        u64 at = t.rip; e = unwind(&t, &frame, &h, &d);
        if(e) bad(e, at, &fr[k - 1], &t);
        if(!same(&fr[k - 1], &t)) bad("unwinding a caller recovers a wrong state", at, &fr[k - 1], &t); } }
int step_cb(ucontext_t *uc){
    greg_t *g = uc->uc_mcontext.gregs; u64 rip = (u64)g[REG_RIP]; int in = in_image(rip);
    if(done){ g[REG_EFL] &= ~0x100ll; return 1; }
    g[REG_EFL] |= 0x100;
    if(mode == 3 && env3.mid == 2){ other_done = 2; env3.mid = 3; }
    if(in){
        nstep++;
        if(ntrace < captrace) trace[ntrace++] = (u32)(rip - (u64)main_image.base);
        if(mode == 1){ static Ctx c; from_uc(&c, uc); unwind_step(&c); }
        if(mode == 2 && nstep == param){ u64 s[2] = { rip - (u64)main_image.base, *(u64 *)buf }; put('i', s, 16); Rec r = { 0xE0000002, 0, 0, (void *)rip, 0, 0, { 0 } }; done = 1; redirect(uc, &r); return 1; }
        if(mode == 3 && nstep == param){ if(env3.mid){ other_old = loadn(other_at(), env3.size); env3.mid = 2; } else other(); }
    }
    else if(mode == 1 && prev_in && napi < 64){ u64 sp = (u64)g[REG_RSP]; if(sp) { api[napi].ret = *(u64 *)sp; api[napi++].sp = sp + 8; } }
    prev_in = (u64)in; prev_rip = rip; return 1; }
void step_start(u64 m, u64 p, u8 *b, u8 *e, u32 el){
    mode = m; param = p; buf = b; keep_tf = m == 1; if(e && el == sizeof env3) memcpy(&env3, e, sizeof env3);
    captrace = m == 3 || m == 4 ? 1u << 20 : 0; if(captrace) trace = mmap(0, captrace * 4ull, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fr = mmap(0, 4096 * sizeof(Frame), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq\n nop" ::: "memory", "cc"); }
void step_end(void){ done = 1; R->aux[0] = nstep; R->aux[1] = other_old; R->aux[2] = (u64)other_done; R->aux[3] = dispatches; if(ntrace) put('r', trace, ntrace * 4ull); }
