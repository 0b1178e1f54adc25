// Controlled scheduler: runs the threads of hlc.exe as coroutines of one OS thread. Every atomic operation, volatile access, kernel call that
// synchronises, and every plain access at a program counter known to race is a scheduling point; a happens-before detector (vector clocks)
// finds the plain accesses that race. A schedule is the default one (run until blocked) plus a list of deviations (point, thread).
#include "hx.h"
#include <immintrin.h>

enum { NT = 8 };
enum { T_FREE, T_RUN, T_EVENT, T_JOIN, T_DONE };
typedef struct { u64 rsp; u8 *lo, *hi; u8 *teb; int state; int *flag; int join; u32 vc[NT]; u32 spin; struct { u64 k; } seen[32]; u32 nseen; int forced; u32 cd; u64 cs[256]; } Thr;
static Thr T[NT]; static int nthr, cur;
extern int sched_on; extern Image main_image;
void *make_teb(void); void tls_attach(u8 *teb, Image *im);
u8 sched_live, sched_detect; u8 *sched_hot; u64 sched_base, sched_size;
static u32 npoints, maxpoints = 400000, ndev, at; static u32 *dev; static int want_trace, wake_first;
typedef struct { u8 tid, kind; u8 mask, next; u32 pc; u64 addr; } Tr;
static Tr *tr; static u32 ntr, ctr;
static u64 nswitch, naccess, nrace, nquiet;
static u32 racy[4096]; static u32 nracy;

int sched_cur(void){ return cur; }
void *sched_api(const char *n);

static void flush_out(void){
    if(want_trace) put('t', tr, ntr * sizeof *tr);
    put('h', racy, nracy * 4);
    u64 st[4] = { npoints, nswitch, naccess, nrace }; put('p', st, sizeof st);
}
void sched_exit(void){ if(sched_on){ sched_on = 0; flush_out(); } }

// ---------------------------------------------------------------- happens-before
typedef struct { u64 key; u32 w; u32 wpc; u32 r[NT]; u32 rpc[NT]; u8 wt; } Sh;
static Sh *sh; enum { SHN = 1 << 19 };
typedef struct { u64 key; u32 vc[NT]; } Sy; static Sy *sy; enum { SYN = 1 << 15 };
static u32 *sync_vc(u64 a){ u64 h = (a >> 3) * 0x9e3779b97f4a7c15ull >> 49; for(u32 i = 0; i < SYN; i++){ Sy *s = &sy[(h + i) & (SYN - 1)]; if(!s->key) s->key = a; if(s->key == a) return s->vc; } abort(); }
static void acquire(u64 a){ u32 *v = sync_vc(a); for(int i = 0; i < nthr; i++) if(v[i] > T[cur].vc[i]) T[cur].vc[i] = v[i]; }
static void release(u64 a){ u32 *v = sync_vc(a); for(int i = 0; i < nthr; i++) if(T[cur].vc[i] > v[i]) v[i] = T[cur].vc[i]; T[cur].vc[cur]++; }
static void race(u32 pc){ nrace++; if(pc < sched_size && sched_hot[pc] == 0){ sched_hot[pc] = 2; if(nracy < 4096) racy[nracy++] = pc; } }
static void detect(u64 a, u64 n, int write, u32 pc){
    for(u64 k = a >> 3; k <= (a + n - 1) >> 3; k++){
        u64 h = k * 0x9e3779b97f4a7c15ull >> 45; Sh *s = 0;
        for(u32 i = 0; i < 16; i++){ Sh *c = &sh[(h + i) & (SHN - 1)]; if(!c->key || c->key == k){ s = c; break; } }
        if(!s){ s = &sh[h & (SHN - 1)]; memset(s, 0, sizeof *s); }
        s->key = k; Thr *t = &T[cur];
        if(s->w && s->wt != cur && s->w > t->vc[s->wt]){ race(pc); race(s->wpc); }
        if(write){
            for(int i = 0; i < nthr; i++) if(i != cur && s->r[i] > t->vc[i]){ race(pc); race(s->rpc[i]); }
            s->w = t->vc[cur]; s->wt = (u8)cur; s->wpc = pc;
        }else{ s->r[cur] = t->vc[cur]; s->rpc[cur] = pc; }
    }
}

// ---------------------------------------------------------------- switching
void sched_swap(u64 *save, u64 to);
__asm__(".text\n.globl sched_swap\nsched_swap:\n push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret\n");
static int is_enabled(Thr *t){ return t->state == T_RUN || (t->state == T_EVENT && *t->flag) || (t->state == T_JOIN && T[t->join].state == T_DONE); }
static u32 enabled(void){ u32 m = 0; for(int i = 0; i < nthr; i++) if(is_enabled(&T[i])) m |= 1u << i; return m; }
static void go(int n){
    if(n == cur) return;
    nswitch++; int o = cur; cur = n; T[n].state = T_RUN; syscall(SYS_arch_prctl, ARCH_SET_GS, T[n].teb);
    sched_swap(&T[o].rsp, T[n].rsp);
}
// kind: 'a' atomic, 'v' volatile, 'p' plain (racing), 'k' kernel, 'B' blocked, 'S' spinning
static void point(u8 kind, u32 pc, u64 addr){
    nquiet = 0;
    if(kind == 'a') pc = (u32)(T[cur].cs[T[cur].cd & 255] - sched_base);
    u32 m = enabled();
    int blocked = !(m >> cur & 1);
    if(!m){ flush_out(); sched_on = 0; put('e', "deadlock", 8); finish(4, 1); }
    static u32 alone;
    if(!blocked && m == 1u << cur){ if(kind != 'S') alone = 0; else if(++alone > 100000){ flush_out(); sched_on = 0; put('e', "no progress", 11); finish(4, 2); } return; }
    alone = 0;
    u32 me = npoints++;
    if(npoints > maxpoints){ flush_out(); sched_on = 0; put('e', "no progress", 11); finish(4, 2); }
    int n = cur;
    if(blocked || kind == 'S' || kind == 'k' && pc == 7 && wake_first) do n = (n + 1) % nthr; while(!(m >> n & 1));
    if(at < ndev && dev[2 * at] == me){ u32 w = dev[2 * at + 1]; at++; if(w < (u32)nthr && (m >> w & 1)) n = (int)w; else { flush_out(); sched_on = 0; put('e', "deviation not possible", 22); finish(4, 3); } }
    if(want_trace && ntr < maxpoints){ if(ntr == ctr){ u32 c = ctr ? ctr * 2 : 4096; tr = realloc(tr, c * sizeof *tr); ctr = c; } tr[ntr++] = (Tr){ (u8)cur, blocked ? 'B' : kind, (u8)m, (u8)n, pc, addr }; }
    if(n != cur){ T[cur].nseen = 0; go(n); }
    else if(T[cur].state != T_RUN) T[cur].state = T_RUN;
}
// a thread that keeps observing the same values without changing anything spins: let the others run
static int spinning(u64 k, int changed){
    Thr *t = &T[cur];
    if(changed){ t->nseen = 0; t->spin = 0; return 0; }
    for(u32 i = 0; i < t->nseen && i < 32; i++) if(t->seen[i].k == k){ if(++t->spin >= 6){ t->spin = 0; t->nseen = 0; return 1; } return 0; }
    t->seen[t->nseen++ % 32].k = k; return 0;
}
static u64 hash3(u64 a, u64 b, u64 c){ u64 h = a * 0x9e3779b97f4a7c15ull ^ b; h = (h ^ h >> 29) * 0xbf58476d1ce4e5b9ull ^ c; return h ^ h >> 32; }

static void thread_main(void){
    Thr *t = &T[cur];
    u64 *a = (u64 *)t->hi;   // fn, arg
    call_on_stack((void *)a[0], (u8 *)t->hi - 256, a[1], 0, 0, 0);
    T[cur].state = T_DONE; release((u64)t); point('k', 0, 0); abort();
}
int sched_thread(void *fn, void *arg){
    if(nthr == NT){ put('e', "too many threads", 16); finish(3, 40); }
    int id = nthr; Thr *t = &T[id]; u64 sz = (1 << 20) + 65536; u8 *s = mmap(0, sz + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(s, 65536, 0);
    t->lo = s; t->hi = s + sz; ((u64 *)t->hi)[0] = (u64)fn; ((u64 *)t->hi)[1] = (u64)arg;
    u8 *cs = mmap(0, 65536, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); u64 *sp = (u64 *)(cs + 65536 - 64); *--sp = 0; *--sp = (u64)thread_main; for(int i = 0; i < 6; i++) *--sp = 0; t->rsp = (u64)sp;
    t->teb = make_teb(); tls_attach(t->teb, &main_image);
    t->state = T_RUN; memcpy(t->vc, T[cur].vc, sizeof t->vc); t->vc[id] = 1; T[cur].vc[cur]++; nthr++;
    sched_live = 1;
    point('k', 0, 0); return id;
}
void sched_wait_event(int *flag, int manual){
    point('k', 1, (u64)flag);
    if(!*flag){ T[cur].state = T_EVENT; T[cur].flag = flag; point('k', 2, (u64)flag); }
    T[cur].state = T_RUN; T[cur].flag = 0; acquire((u64)flag); if(!manual) *flag = 0;
}
void sched_wake(int *flag){ int any = 0; release((u64)flag); for(int i = 0; i < nthr; i++) if(T[i].state == T_EVENT && T[i].flag == flag){ T[i].state = T_RUN; any = 1; } if(any) point('k', 7, (u64)flag); }
void sched_wait_thread(int s){ if(T[s].state != T_DONE){ T[cur].state = T_JOIN; T[cur].join = s; point('k', 3, 0); } T[cur].state = T_RUN; acquire((u64)&T[s]); }
void sched_point(const char *w){ if(sched_live || *w != 'V') point('k', *w == 'V' ? 6 : 4, 0); }

// ---------------------------------------------------------------- instrumentation
#define PC() ((u32)((u64)__builtin_return_address(0) - sched_base))
void sched_access(u64 addr, u64 info, u64 pc64){
    u32 pc = (u32)(pc64 - sched_base); u64 n = info & 255; int w = (int)(info >> 8 & 1);
    if(addr - (u64)T[cur].lo < (u64)(T[cur].hi - T[cur].lo)) return;
    naccess++;
    if(pc < sched_size && sched_hot[pc] == 1){ u64 v = 0; if(!w) memcpy(&v, (void *)addr, n < 8 ? n : 8); point(!w && spinning(hash3(addr, pc, v), 0) ? 'S' : 'p', pc, addr); }
    else if(++nquiet > 300000) point('S', pc, addr);
    if(sched_detect) detect(addr, n, w, pc);
    if(w && pc < sched_size && sched_hot[pc] == 1) T[cur].nseen = T[cur].spin = 0;
}
#define HOOK(name, info) __asm__(".text\n.globl hk_" #name "\nhk_" #name ":\n" \
    "cmpb $0,sched_live(%rip)\n je 1f\n mov (%rsp),%rax\n cmpb $0,sched_detect(%rip)\n jne 2f\n sub sched_base(%rip),%rax\n cmp sched_size(%rip),%rax\n jae 1f\n mov sched_hot(%rip),%r10\n cmpb $0,(%r10,%rax)\n je 1f\n" \
    "2: push %rbp\n mov %rsp,%rbp\n push %rdi\n push %rsi\n sub $176,%rsp\n and $-16,%rsp\n movaps %xmm6,(%rsp)\n movaps %xmm7,16(%rsp)\n movaps %xmm8,32(%rsp)\n movaps %xmm9,48(%rsp)\n movaps %xmm10,64(%rsp)\n movaps %xmm11,80(%rsp)\n movaps %xmm12,96(%rsp)\n movaps %xmm13,112(%rsp)\n movaps %xmm14,128(%rsp)\n movaps %xmm15,144(%rsp)\n" \
    "mov %rcx,%rdi\n mov $" #info ",%esi\n mov 8(%rbp),%rdx\n call sched_access\n" \
    "movaps (%rsp),%xmm6\n movaps 16(%rsp),%xmm7\n movaps 32(%rsp),%xmm8\n movaps 48(%rsp),%xmm9\n movaps 64(%rsp),%xmm10\n movaps 80(%rsp),%xmm11\n movaps 96(%rsp),%xmm12\n movaps 112(%rsp),%xmm13\n movaps 128(%rsp),%xmm14\n movaps 144(%rsp),%xmm15\n" \
    "mov -8(%rbp),%rdi\n mov -16(%rbp),%rsi\n mov %rbp,%rsp\n pop %rbp\n 1: ret\n"); extern void hk_##name(void);
HOOK(r1, 1) HOOK(r2, 2) HOOK(r4, 4) HOOK(r8, 8) HOOK(r16, 16) HOOK(w1, 257) HOOK(w2, 258) HOOK(w4, 260) HOOK(w8, 264) HOOK(w16, 272)

static void vol(u64 a, u64 n, int w, u32 pc){
    if(!sched_live) return;
    u64 v = 0; memcpy(&v, (void *)a, n);
    point(!w && spinning(hash3(a, pc, v), w) ? 'S' : 'v', pc, a);
    if(w){ release(a); T[cur].nseen = T[cur].spin = 0; } else acquire(a);
    if(sched_detect){ // plain accesses of the same object race with this one
        u64 k = a >> 3, h = k * 0x9e3779b97f4a7c15ull >> 45;
        for(u32 i = 0; i < 16; i++){ Sh *s = &sh[(h + i) & (SHN - 1)]; if(!s->key) break; if(s->key == k){ if(s->w && s->wt != cur && s->w > T[cur].vc[s->wt]) race(s->wpc); break; } }
    }
}
static MS void hk_v1(u64 a){ vol(a, 1, 0, PC()); } static MS void hk_v2(u64 a){ vol(a, 2, 0, PC()); } static MS void hk_v4(u64 a){ vol(a, 4, 0, PC()); } static MS void hk_v8(u64 a){ vol(a, 8, 0, PC()); }
static MS void hk_vw1(u64 a){ vol(a, 1, 1, PC()); } static MS void hk_vw2(u64 a){ vol(a, 2, 1, PC()); } static MS void hk_vw4(u64 a){ vol(a, 4, 1, PC()); } static MS void hk_vw8(u64 a){ vol(a, 8, 1, PC()); }
// pre: the operation is about to happen at a scheduling point; post: spin detection uses what it observed
static int a_spin;
static void apre(u64 a, u32 pc){ if(!sched_live) return; point(T[cur].forced ? 'S' : 'a', pc, a); T[cur].forced = 0; acquire(a);
    if(sched_detect){ u64 k = a >> 3, h = k * 0x9e3779b97f4a7c15ull >> 45; for(u32 i = 0; i < 16; i++){ Sh *s = &sh[(h + i) & (SHN - 1)]; if(!s->key) break; if(s->key == k){ if(s->w && s->wt != cur && s->w > T[cur].vc[s->wt]) race(s->wpc); for(int j = 0; j < nthr; j++) if(j != cur && s->r[j] > T[cur].vc[j]) race(s->rpc[j]); break; } } } }
static void apost(u64 a, u32 pc, u64 v, int changed){ if(!sched_live) return; release(a); if(spinning(hash3(a, pc, v), changed)) T[cur].forced = 1; }
#define CAS(n, t) static MS t hk_cas##n(t *p, t c, t v, int mo, int fmo){ apre((u64)p, PC()); t o = *p; if(o == c) *p = v; apost((u64)p, PC(), (u64)o, o == c && c != v); return o; }
#define RMW(name, t, e) static MS t hk_##name(t *p, t v, int mo){ apre((u64)p, PC()); t o = *p; *p = e; apost((u64)p, PC(), (u64)o, 1); return o; }
#define LDST(n, t) static MS t hk_load##n(t *p, int mo){ apre((u64)p, PC()); t o = *p; apost((u64)p, PC(), (u64)o, 0); return o; } static MS void hk_store##n(t *p, t v, int mo){ apre((u64)p, PC()); *p = v; apost((u64)p, PC(), 0, 1); }
#define FAM(n, t) CAS(n, t) RMW(add##n, t, o + v) RMW(sub##n, t, o - v) RMW(and##n, t, o & v) RMW(or##n, t, o | v) RMW(xor##n, t, o ^ v) RMW(xchg##n, t, v) LDST(n, t)
FAM(8, u8) FAM(16, u16) FAM(32, u32) FAM(64, u64)
// rcx = pointer, rdx:r8 = expected, r9:[rsp+40] = new value; returns rax:rdx
static MS void cas128_(u64 *p, u64 cl, u64 ch, u64 vl, u64 vh, u64 *out, u64 pc64){
    u32 pc = (u32)(pc64 - sched_base); apre((u64)p, pc); u64 l = p[0], h = p[1]; int ok = l == cl && h == ch; if(ok){ p[0] = vl; p[1] = vh; } apost((u64)p, pc, hash3(l, h, 1), ok && (cl != vl || ch != vh)); out[0] = l; out[1] = h; }
void *cas128_fn = cas128_;
extern void hk_cas128(void);
__asm__(".text\n.globl hk_cas128\nhk_cas128:\n push %rbp\n mov %rsp,%rbp\n sub $112,%rsp\n mov 48(%rbp),%rax\n mov %rax,32(%rsp)\n lea 80(%rsp),%rax\n mov %rax,40(%rsp)\n mov 8(%rbp),%rax\n mov %rax,48(%rsp)\n call *cas128_fn(%rip)\n mov 80(%rsp),%rax\n mov 88(%rsp),%rdx\n mov %rbp,%rsp\n pop %rbp\n ret\n");
static void range(u64 a, u64 n, int w, u32 pc){ if(!sched_live || !n) return; if(a - (u64)T[cur].lo < (u64)(T[cur].hi - T[cur].lo)) return; naccess++; if(pc < sched_size && sched_hot[pc] == 1) point('p', pc, a); if(sched_detect) detect(a, n < 4096 ? n : 4096, w, pc); if(w && pc < sched_size && sched_hot[pc] == 1) T[cur].nseen = T[cur].spin = 0; }
static MS void *hk_memcpy(void *d, void *s, u64 n){ range((u64)s, n, 0, PC()); range((u64)d, n, 1, PC()); return memcpy(d, s, n); }
static MS void *hk_memmove(void *d, void *s, u64 n){ range((u64)s, n, 0, PC()); range((u64)d, n, 1, PC()); return memmove(d, s, n); }
static MS void *hk_memset(void *d, int c, u64 n){ range((u64)d, n, 1, PC()); return memset(d, c, n); }
static MS void hk_nop(void){}
// the call sites, so that the operations inside the wrappers of the intrinsics are told apart
static MS void hk_enter(u64 pc){ T[cur].cs[++T[cur].cd & 255] = pc; } static MS void hk_leave(void){ T[cur].cd--; }

static struct { const char *n; void *f; } hooks[] = {
    { "init", hk_nop }, { "func_entry", hk_enter }, { "func_exit", hk_leave }, { "read1", hk_r1 }, { "read2", hk_r2 }, { "read4", hk_r4 }, { "read8", hk_r8 }, { "read16", hk_r16 }, { "write1", hk_w1 }, { "write2", hk_w2 }, { "write4", hk_w4 }, { "write8", hk_w8 }, { "write16", hk_w16 },
    { "unaligned_read2", hk_r2 }, { "unaligned_read4", hk_r4 }, { "unaligned_read8", hk_r8 }, { "unaligned_read16", hk_r16 }, { "unaligned_write2", hk_w2 }, { "unaligned_write4", hk_w4 }, { "unaligned_write8", hk_w8 }, { "unaligned_write16", hk_w16 },
    { "volatile_read1", hk_v1 }, { "volatile_read2", hk_v2 }, { "volatile_read4", hk_v4 }, { "volatile_read8", hk_v8 }, { "volatile_write1", hk_vw1 }, { "volatile_write2", hk_vw2 }, { "volatile_write4", hk_vw4 }, { "volatile_write8", hk_vw8 },
    { "unaligned_volatile_read8", hk_v8 }, { "unaligned_volatile_read4", hk_v4 },
#define N(n) { "atomic" #n "_compare_exchange_val", hk_cas##n }, { "atomic" #n "_fetch_add", hk_add##n }, { "atomic" #n "_fetch_sub", hk_sub##n }, { "atomic" #n "_fetch_and", hk_and##n }, { "atomic" #n "_fetch_or", hk_or##n }, { "atomic" #n "_fetch_xor", hk_xor##n }, { "atomic" #n "_exchange", hk_xchg##n }, { "atomic" #n "_load", hk_load##n }, { "atomic" #n "_store", hk_store##n },
    N(8) N(16) N(32) N(64) { "atomic128_compare_exchange_val", hk_cas128 }, { "atomic_thread_fence", hk_nop }, { "atomic_signal_fence", hk_nop }, { "memcpy", hk_memcpy }, { "memmove", hk_memmove }, { "memset", hk_memset } };
void *sched_api(const char *n){ if(strncmp(n, "__tsan_", 7)) return 0; for(u32 i = 0; i < sizeof hooks / sizeof *hooks; i++) if(!strcmp(hooks[i].n, n + 7)) return hooks[i].f; return 0; }

// spec: u32 flags (1 detect races, 2 trace), u32 maximal number of points, u32 number of deviations, pairs, u32 number of hot program counters, their addresses
void sched_setup(u8 *s, u32 l){
    u32 *p = (u32 *)malloc(l + 16); memcpy(p, s, l); 
    sched_detect = p[0] & 1; want_trace = p[0] >> 1 & 1; wake_first = p[0] >> 2 & 1; if(p[1]) maxpoints = p[1]; ndev = p[2]; dev = p + 3; u32 *q = dev + 2 * ndev; u32 nh = *q++;
    sched_base = (u64)main_image.base; sched_size = main_image.size; sched_hot = mmap(0, sched_size + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for(u32 i = 0; i < nh; i++) if(q[i] < sched_size) sched_hot[q[i]] = 1;
    if(sched_detect) sh = mmap(0, SHN * sizeof(Sh), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sy = mmap(0, SYN * sizeof(Sy), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void sched_run(void *entry){
    u64 sz = (main_image.stack_reserve ? main_image.stack_reserve : 1 << 20) + 65536; u8 *s = mmap(0, sz + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(s, 65536, 0);
    nthr = 1; cur = 0; T[0].lo = s; T[0].hi = s + sz; T[0].state = T_RUN; T[0].vc[0] = 1; T[0].teb = make_teb(); tls_attach(T[0].teb, &main_image); syscall(SYS_arch_prctl, ARCH_SET_GS, T[0].teb);
    sched_on = 1; sched_live = 0;
    call_on_stack(entry, s + sz - 64, 0, 0, 0, 0); finish(1, 0xdead);
}
