#include "hx.h"
#include "vfs.h"

Result *R; u64 R_cap;

static pthread_mutex_t put_lock = PTHREAD_MUTEX_INITIALIZER;
void put2(u8 tag, const void *a, u64 al, const void *b, u64 bl){
    pthread_mutex_lock(&put_lock);
    if(sizeof(Result) + R->used + 5 + al + bl <= R_cap){
        u8 *p = R->payload + R->used; u32 len = (u32)(al + bl);
        p[0] = tag; memcpy(p + 1, &len, 4); if(al) memcpy(p + 5, a, al); if(bl) memcpy(p + 5 + al, b, bl);
        R->used += 5 + al + bl;
    }
    pthread_mutex_unlock(&put_lock);
}
void put(u8 tag, const void *d, u64 l){ put2(tag, d, l, 0, 0); }

// ---------------------------------------------------------------- request state
typedef struct { u8 tag; u32 len; u8 *data; } Field;
static Field *fields; static u32 nfields, cfields;
static u8 *getf(u8 tag, u32 *len){ for(u32 i = 0; i < nfields; i++) if(fields[i].tag == tag){ if(len) *len = fields[i].len; return fields[i].data; } if(len) *len = 0; return 0; }
static u64 getn(u8 tag, u64 def){ u32 l; u8 *d = getf(tag, &l); if(!d) return def; u64 v = 0; memcpy(&v, d, l < 8 ? l : 8); return v; }

static char cmdline[1 << 16]; static char modname[512] = "C:\\hlc\\hlc.exe"; static char cwd[512] = "C:\\w";
static u8 *outbuf; static u64 outlen; static pthread_mutex_t outlock = PTHREAD_MUTEX_INITIALIZER;
static u64 ncpu = 4;
// environment variation: 0 placement (1 ascending from a low address, 2 descending from a high one, 3 widely spaced), 1 fill byte + 1 of stacks and heap blocks, 2 clock offset, 3 clock step, 4 process id, 5 time of day
static u64 env[6]; static u64 env_at; u64 env_fill(void){ return env[1]; }
static void *place(u64 n, int prot){ n = (n + 65535) & ~65535ull; u64 at = 0; if(env[0] == 1){ if(!env_at) env_at = 0x10000000; at = env_at; env_at += n; } if(env[0] == 2){ if(!env_at) env_at = 0x600000000000; env_at -= n + 65536; at = env_at; } if(env[0] == 3){ if(!env_at) env_at = 0x100000000000; at = env_at; env_at += n + 0x12345670000; }
    void *p = mmap((void *)at, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); return p == MAP_FAILED && at ? mmap(0, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : p; }
static void *filled(void *p, u64 n){ if(env[1]) memset(p, (int)env[1] - 1, n); return p; }
static int want_log;

// ---------------------------------------------------------------- faults
static u64 fault_n, fault_at[4], fault_mode[4]; static int fault_k; static u64 fault_cnt_stdout;
void fault_reset(void){ fault_n = 0; }
// returns mode to apply (0 none)
static int fault_point(const char *name, const char *arg, u64 amount){
    u64 me = __atomic_fetch_add(&fault_n, 1, __ATOMIC_SEQ_CST);
    if(want_log){ char b[700]; int n = snprintf(b, sizeof b, "%llu %s %s %llu", (unsigned long long)me, name, arg ? arg : "", (unsigned long long)amount); if(n > 699) n = 699; put('l', b, n); }
    for(int i = 0; i < fault_k; i++) if(fault_at[i] == me || (fault_at[i] & (1ull<<63) && me >= (fault_at[i] & ~(1ull<<63)))) return (int)fault_mode[i];
    return 0;
}

void sched_exit(void);
void finish(u32 kind, u32 code){
    static int once; if(__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for(;;) pause();
    sched_exit();
    put('o', outbuf, outlen);
    for(u32 i = 0; i < vfs_n; i++){ VF *f = vfs[i]; if(f->out){ u32 nl = (u32)strlen(f->name); u8 hdr[600]; memcpy(hdr, &nl, 4); memcpy(hdr + 4, f->name, nl); put2('f', hdr, 4 + nl, f->data, f->size); } }
    R->nfault = fault_n; R->code = code;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    R->kind = kind;
    _exit(0);
}

static void report(const char *s){ put('e', s, strlen(s)); }

// ---------------------------------------------------------------- handles
enum { H_FREE, H_FILE, H_FIND, H_EVENT, H_THREAD, H_STD, H_KEY };
typedef struct H { int type; VF *f; u64 pos; int write; char **names; u64 *szs; int *dirs; u32 nn, at; int manual, signaled; pthread_mutex_t m; pthread_cond_t c; void *fn; void *arg; u32 exit; int sid; } H;
static H handles[32768]; static u32 nh = 16; static pthread_mutex_t hl = PTHREAD_MUTEX_INITIALIZER;
static u64 newh(int type){ pthread_mutex_lock(&hl); if(nh >= 32768){ report("out of handles"); finish(3, 1); } u32 i = nh++; pthread_mutex_unlock(&hl); H *h = &handles[i]; h->type = type; pthread_mutex_init(&h->m, 0); pthread_cond_init(&h->c, 0); return (u64)i * 4; }
static H *hget(u64 v){ if(v % 4 || v / 4 >= nh) return 0; H *h = &handles[v / 4]; return h->type ? h : 0; }
static _Thread_local u32 tl_err; static u32 sched_err[64];

int sched_on; int sched_cur(void); // scheduler (sched.c)
static u32 *errp(void){ return sched_on ? &sched_err[sched_cur() & 63] : &tl_err; }
#define ERR(x) (*errp() = (x))

// ---------------------------------------------------------------- API
static MS u64 a_CloseHandle(u64 h){ H *x = hget(h); if(!x){ ERR(6); return 0; } if(x->type == H_FILE || x->type == H_FIND){ x->type = H_FREE; } return 1; }
static MS u64 a_CreateFileA(const char *name, u32 access, u32 share, void *sa, u32 disp, u32 flags, u64 t){
    char p[600]; vfs_norm(cwd, name, p, sizeof p);
    int fm = fault_point((access & 0x40000000) ? "open-write" : "open-read", p, disp);
    if(fm){ ERR(5); return ~0ull; }
    VF *f = vfs_find(p);
    if(access & 0x40000000){
        if(f && f->readonly){ ERR(5); return ~0ull; }
        if(vfs_is_dir(p) || !vfs_parent_ok(p)){ ERR(vfs_is_dir(p) ? 5 : 3); return ~0ull; }
        if(!f){ f = vfs_add(p, 0, 0); ERR(0); } else ERR(183);
        f->out = 1; if(disp == 2){ f->data = 0; f->size = 0; f->cap = 0; f->real = 0; }
    }else{
        if(!f){ ERR(vfs_is_dir(p) ? 5 : 2); return ~0ull; }
        vfs_load(f); ERR(0);
    }
    u64 h = newh(H_FILE); hget(h)->f = f; hget(h)->pos = 0; hget(h)->write = !!(access & 0x40000000); return h;
}
static MS u64 a_GetFileInformationByHandle(u64 h, u32 *o){ H *x = hget(h); if(!x || x->type != H_FILE){ ERR(6); return 0; }
    if(fault_point("file-info", x->f->name, 0)){ ERR(5); return 0; }
    memset(o, 0, 52); o[0] = 0x80; u64 t = 133000000000000000ull; for(int i = 1; i < 7; i += 2){ o[i] = (u32)t; o[i+1] = (u32)(t >> 32); } o[7] = 0x1234; o[8] = (u32)(x->f->size >> 32); o[9] = (u32)x->f->size; o[10] = 1; o[11] = 0; o[12] = x->f->id; return 1; }
static MS u64 a_GetFileSizeEx(u64 h, u64 *o){ H *x = hget(h); if(!x || x->type != H_FILE){ ERR(6); return 0; } *o = x->f->size; return 1; }
static MS u64 a_ReadFile(u64 h, u8 *b, u32 n, u32 *got, void *ov){ H *x = hget(h); if(got) *got = 0; if(!x || x->type != H_FILE){ ERR(6); return 0; }
    int fm = fault_point("read", x->f->name, n); if(fm == 1){ ERR(30); return 0; }
    u64 left = x->pos < x->f->size ? x->f->size - x->pos : 0; if(n > left) n = (u32)left; if(fm == 2) n /= 2; if(fm == 3) n = 0; memcpy(b, x->f->data + x->pos, n); x->pos += n; if(got) *got = n; return 1; }
static MS u64 a_WriteFile(u64 h, const u8 *b, u32 n, u32 *put_, void *ov){
    if(put_) *put_ = 0;
    if(h == 8 || h == 12){ // stdout / stderr
        pthread_mutex_lock(&outlock); if(outlen + n > (32u << 20)){ report("output flood"); finish(3, 2); } memcpy(outbuf + outlen, b, n); outlen += n; pthread_mutex_unlock(&outlock); if(put_) *put_ = n; return 1; }
    H *x = hget(h); if(!x || x->type != H_FILE || !x->write){ ERR(6); return 0; }
    int fm = fault_point("write", x->f->name, n); if(fm == 1){ ERR(112); return 0; } if(fm == 2) n /= 2; if(fm == 3) n = 0;
    VF *f = x->f; if(x->pos + n > f->cap){ u64 c = (x->pos + n) * 2; u8 *d = malloc(c); memcpy(d, f->data, f->size); f->data = d; f->cap = c; }
    memcpy(f->data + x->pos, b, n); x->pos += n; if(x->pos > f->size) f->size = x->pos; if(put_) *put_ = n; return 1; }
static MS u64 a_GetFileAttributesA(const char *n){ char p[600]; vfs_norm(cwd, n, p, sizeof p); if(vfs_find(p)) return 0x80; if(vfs_is_dir(p)) return 0x10; ERR(2); return 0xffffffff; }
static MS u64 a_GetStdHandle(u32 w){ return w == (u32)-11 ? 8 : w == (u32)-12 ? 12 : 4; }
static MS u32 a_GetLastError(void){ return *errp(); }
static MS void a_SetLastError(u32 e){ *errp() = e; }
static MS u32 a_GetCurrentDirectoryA(u32 n, char *b){ u32 l = (u32)strlen(cwd); if(n < l + 1) return l + 1; memcpy(b, cwd, l + 1); return l; }
static MS char *a_GetCommandLineA(void){ return cmdline; }
static MS u32 a_GetModuleFileNameA(u64 m, char *b, u32 n){ u32 l = (u32)strlen(modname); if(n < l + 1) return n; memcpy(b, modname, l + 1); return l; }
static MS u64 a_GetModuleHandleA(char *n){ extern Image main_image; return (u64)main_image.base; }
static MS void a_GetLocalTime(u16 *t){ t[0] = 2024 + (u16)env[5]; t[1] = 3; t[2] = 2; t[3] = 5; t[4] = 6; t[5] = 7; t[6] = 8 + (u16)env[5]; t[7] = 9; }
static MS u64 a_SystemTimeToFileTime(u16 *t, u64 *o){ *o = 133541500280090000ull + env[5] * 315360000000000ull; return 1; }
static u64 clk; static MS u64 a_GetTickCount64(void){ return __atomic_add_fetch(&clk, 1 + env[3], __ATOMIC_SEQ_CST); }
static MS u64 a_QueryPerformanceCounter(u64 *o){ *o = __atomic_add_fetch(&clk, 1 + env[3], __ATOMIC_SEQ_CST); return 1; }
static MS u64 a_QueryPerformanceFrequency(u64 *o){ *o = 10000000; return 1; }
static MS void a_GetSystemInfo(u8 *s){ memset(s, 0, 48); *(u16 *)s = 9; *(u32 *)(s + 4) = 4096; *(u64 *)(s + 8) = 0x10000; *(u64 *)(s + 16) = 0x7ffffffeffffull; *(u64 *)(s + 24) = (1ull << ncpu) - 1; *(u32 *)(s + 32) = (u32)ncpu; *(u32 *)(s + 36) = 8664; *(u32 *)(s + 40) = 65536; }
static MS u32 a_IsDebuggerPresent(void){ return 0; }
static MS void a_ExitProcess(u32 c){ finish(1, c); }
static MS void *a_GlobalAlloc(u32 f, u64 n){ if(fault_point("alloc", "GlobalAlloc", n)){ ERR(8); return 0; } return calloc(1, n ? n : 1); }
static MS void *a_malloc(u64 n){ return filled(malloc(n), n); }
static MS void *a_calloc(u64 a, u64 b){ return calloc(a, b); }
static MS void *a_realloc(void *p, u64 b){ return realloc(p, b); }
static MS void a_free(void *p){ free(p); }
static MS float a_strtof(const char *s, char **e){ return strtof(s, e); }
static MS double a_strtod(const char *s, char **e){ return strtod(s, e); }
static MS int a_system(const char *s){ put('s', s, strlen(s)); return 0; }
static MS void *a_VirtualAlloc(void *at, u64 n, u32 type, u32 prot){
    if(sched_on && (!at || type & 0x2000)) sched_point("VirtualAlloc");
    if(type & 0x2000){ if(fault_point("reserve", "VirtualAlloc", n)){ ERR(8); return 0; }
        void *p = at ? mmap(at, n, (type & 0x1000) ? 3 : 0, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : place(n, (type & 0x1000) ? 3 : 0); if(p == MAP_FAILED){ ERR(8); return 0; } return p; }
    if(fault_point("commit", "VirtualAlloc", n)){ ERR(8); return 0; }
    u64 a = (u64)at & ~4095ull, e = ((u64)at + n + 4095) & ~4095ull;
    if(!at){ void *p = place(n, 3); return p == MAP_FAILED ? 0 : p; }
    if(mprotect((void *)a, e - a, 3)){ ERR(8); return 0; } return at; }
static MS u64 a_VirtualFree(void *p, u64 n, u32 t){ return 1; }
static MS u64 a_VirtualProtect(void *p, u64 n, u32 t, u32 *o){ if(o) *o = 4; u64 a = (u64)p & ~4095ull, e = ((u64)p + n + 4095) & ~4095ull; mprotect((void *)a, e - a, 7); return 1; }
// registry
static MS u32 a_RegOpenKeyExA(u64 k, char *sub, u32 o, u32 d, u64 *out){ if(fault_point("reg-open", sub, 0)) return 2; *out = newh(H_KEY); return 0; }
static MS u32 a_RegQueryValueExA(u64 k, char *name, void *r, u32 *t, u8 *data, u32 *len){ if(fault_point("reg-query", name, 0)) return 2; if(strstr(name, "OptionId")){ *(u32 *)data = 1; return 0; } const char *v = "C:\\sdk\\"; u32 l = (u32)strlen(v) + 1; if(*len < l) return 234; memcpy(data, v, l); *len = l; return 0; }
static MS u32 a_RegEnumKeyExA(u64 k, u32 i, char *n, u32 *len, void *r, void *c, void *cl, void *ft){ if(fault_point("reg-enum", "", i)) return 259; if(i) return 259; strcpy(n, "10.0.1.0"); *len = 8; return 0; }
static MS u32 a_RegCloseKey(u64 k){ return 0; }
// find
static MS u64 a_FindFirstFileA(const char *pat, u8 *fd);
static void fill_fd(H *h, u8 *fd){ memset(fd, 0, 320); u32 i = h->at; *(u32 *)fd = h->dirs[i] ? 0x10 : 0x80; *(u32 *)(fd + 32) = (u32)h->szs[i]; snprintf((char *)fd + 44, 260, "%s", h->names[i]); }
static MS u64 a_FindFirstFileA(const char *pat, u8 *fd){ char p[600]; vfs_norm(cwd, pat, p, sizeof p); if(fault_point("find", p, 0)){ ERR(5); return ~0ull; }
    char dir[600]; strcpy(dir, p); char *sl = strrchr(dir, '\\'); if(!sl){ ERR(2); return ~0ull; } *sl = 0; char *wild = sl + 1;
    u64 hv = newh(H_FIND); H *h = hget(hv); h->nn = vfs_list(dir, wild, &h->names, &h->szs, &h->dirs); h->at = 0; if(!h->nn){ h->type = 0; ERR(2); return ~0ull; } fill_fd(h, fd); return hv; }
static MS u64 a_FindNextFileA(u64 hv, u8 *fd){ H *h = hget(hv); if(!h || h->type != H_FIND){ ERR(6); return 0; } if(++h->at >= h->nn){ ERR(18); return 0; } fill_fd(h, fd); return 1; }
static MS u64 a_FindClose(u64 hv){ H *h = hget(hv); if(h) h->type = 0; return 1; }

// events & threads (free-running); scheduler replacements in sched.c
int sched_thread(void *fn, void *arg); void sched_wait_event(int *flag, int manual); void sched_wait_thread(int sid); void sched_point(const char *what); void sched_wake(int *flag);
static MS u64 a_CreateEventA(void *sa, u32 manual, u32 init, char *n){ if(fault_point("event", "", 0)){ ERR(8); return 0; } u64 h = newh(H_EVENT); hget(h)->manual = manual; hget(h)->signaled = init; return h; }
static MS u64 a_SetEvent(u64 hv){ H *h = hget(hv); if(!h) return 0; if(sched_on){ sched_point("SetEvent"); h->signaled = 1; sched_wake(&h->signaled); return 1; } pthread_mutex_lock(&h->m); h->signaled = 1; pthread_cond_broadcast(&h->c); pthread_mutex_unlock(&h->m); return 1; }
static MS u64 a_ResetEvent(u64 hv){ H *h = hget(hv); if(!h) return 0; if(sched_on){ sched_point("ResetEvent"); h->signaled = 0; return 1; } pthread_mutex_lock(&h->m); h->signaled = 0; pthread_mutex_unlock(&h->m); return 1; }
static MS u32 a_WaitForSingleObject(u64 hv, u32 ms){ H *h = hget(hv); if(!h) return 0xffffffff;
    if(sched_on){ if(h->type == H_THREAD) sched_wait_thread(h->sid); else sched_wait_event(&h->signaled, h->manual); return 0; }
    pthread_mutex_lock(&h->m); while(!h->signaled) pthread_cond_wait(&h->c, &h->m); if(!h->manual && h->type == H_EVENT) h->signaled = 0; pthread_mutex_unlock(&h->m); return 0; }
void thread_env(void);
static void *thr_main(void *v){ H *h = v; u8 *st = new_stack(1 << 20); thread_env(); h->exit = (u32)call_on_stack(h->fn, st, (u64)h->arg, 0, 0, 0); pthread_mutex_lock(&h->m); h->signaled = 1; pthread_cond_broadcast(&h->c); pthread_mutex_unlock(&h->m); return 0; }
static MS u64 a_CreateThread(void *sa, u64 ss, void *fn, void *arg, u32 fl, u32 *id){ if(fault_point("thread", "", 0)) { ERR(8); return 0; } u64 hv = newh(H_THREAD); H *h = hget(hv); h->fn = fn; h->arg = arg; if(id) *id = 100 + (u32)hv;
    if(sched_on){ h->sid = sched_thread(fn, arg); return hv; }
    pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10); if(pthread_create(&t, &at, thr_main, h)){ report("pthread_create"); finish(3, 3); } pthread_detach(t); return hv; }
static MS u32 a_GetCurrentThreadId(void){ return sched_on ? 100 + sched_cur() : (u32)syscall(SYS_gettid); }
static MS u32 a_GetCurrentProcessId(void){ return 77 + env[4]; }
static MS void a_Sleep(u32 ms){ if(sched_on) sched_point("Sleep"); }
static MS u32 ret0(void){ return 0; }
static MS u32 ret1(void){ return 1; }
// crt bits
static MS void *a_memcpy(void *a, const void *b, u64 n){ return memcpy(a, b, n); }
static MS void *a_memmove(void *a, const void *b, u64 n){ return memmove(a, b, n); }
static MS void *a_memset(void *a, int b, u64 n){ return memset(a, b, n); }
static MS int a_memcmp(const void *a, const void *b, u64 n){ return memcmp(a, b, n); }
static MS u64 a_strlen(const char *a){ return strlen(a); }
static MS int a_strcmp(const char *a, const char *b){ return strcmp(a, b); }
static MS int a_puts(const char *s){ a_WriteFile(8, (u8 *)s, (u32)strlen(s), 0, 0); a_WriteFile(8, (u8 *)"\n", 1, 0, 0); return 0; }
static MS int a_putchar(int c){ u8 b = (u8)c; a_WriteFile(8, &b, 1, 0, 0); return c; }
__attribute__((naked)) static void a_chkstk(void){ __asm__("ret"); }
static MS void a_abort(void){ finish(1, 3); }

static MS u16 *a_GetCommandLineW(void){ static u16 *w; if(!w){ u64 n = strlen(cmdline); w = calloc(n + 1, 2); for(u64 i = 0; i < n; i++) w[i] = (u8)cmdline[i]; } return w; }
// the environment block of an executed program
static const char envblock[] = "=::=::\\\0=C:=C:\\w\0A=1\0EMPTY=\0B=x y=z\0";
static MS char *a_GetEnvironmentStringsA(void){ char *b = malloc(sizeof envblock); memcpy(b, envblock, sizeof envblock); return b; }
static MS u16 *a_GetEnvironmentStringsW(void){ u16 *b = malloc(sizeof envblock * 2); for(u64 i = 0; i < sizeof envblock; i++) b[i] = (u8)envblock[i]; return b; }
static MS void a_GetStartupInfo(u8 *s){ memset(s, 0, 104); *(u32 *)s = 104; *(u32 *)(s + 60) = 1; *(u16 *)(s + 64) = 7; }
static int crt_argc; static void *crt_argv, *crt_wargv;
static MS int *a___p___argc(void){ return &crt_argc; }
static MS void **a___p___argv(void){ return &crt_argv; }
static MS void **a___p___wargv(void){ return &crt_wargv; }

typedef struct { const char *n; void *f; } Api;
#define A(x) { #x, a_##x }
MS void RtlRaise(u32 code, u32 flags, u32 n, u64 *p);
MS int c_specific_handler(void *rec, void *frame, void *ctx, void *disp);
extern void seh_RaiseException(void); extern void seh_RtlUnwindEx(void);
static Api apis[] = { A(CloseHandle), A(CreateFileA), A(GetFileInformationByHandle), A(GetFileSizeEx), A(ReadFile), A(WriteFile), A(GetFileAttributesA), A(GetStdHandle), A(GetLastError), A(SetLastError), A(GetCurrentDirectoryA), A(GetCommandLineA), A(GetCommandLineW), A(GetEnvironmentStringsA), A(GetEnvironmentStringsW), { "GetEnvironmentStrings", a_GetEnvironmentStringsA }, { "GetStartupInfoA", a_GetStartupInfo }, { "GetStartupInfoW", a_GetStartupInfo }, { "GetModuleHandleW", a_GetModuleHandleA }, A(__p___argc), A(__p___argv), A(__p___wargv), A(GetModuleFileNameA), A(GetModuleHandleA), A(GetLocalTime), { "GetSystemTime", a_GetLocalTime }, A(SystemTimeToFileTime), A(GetTickCount64), A(QueryPerformanceCounter), A(QueryPerformanceFrequency), A(GetSystemInfo), A(IsDebuggerPresent), A(ExitProcess), A(GlobalAlloc), A(malloc), A(calloc), A(realloc), A(free), A(strtod), A(strtof), A(system), A(VirtualAlloc), A(VirtualFree), A(VirtualProtect), A(RegOpenKeyExA), A(RegQueryValueExA), A(RegEnumKeyExA), A(RegCloseKey), A(FindFirstFileA), A(FindNextFileA), A(FindClose), A(CreateEventA), A(SetEvent), A(ResetEvent), A(WaitForSingleObject), A(CreateThread), A(GetCurrentThreadId), A(GetCurrentProcessId), A(Sleep), A(memcpy), A(memmove), A(memset), A(memcmp), A(strlen), A(strcmp), A(puts), A(putchar), A(abort), { "exit", a_ExitProcess }, { "_exit", a_ExitProcess }, { "__chkstk", a_chkstk }, { "__C_specific_handler", c_specific_handler }, { "RaiseException", seh_RaiseException }, { "_crt_atexit", ret0 }, { "_initterm", ret0 }, { "_initterm_e", ret0 }, { "SetUnhandledExceptionFilter", ret0 }, { "FlushFileBuffers", ret1 }, };

void *sched_api(const char *name);
u8 *tramp; u32 tramp_n; static MS void unresolved(const char *name){ char b[300]; snprintf(b, sizeof b, "unresolved import called: %s", name); report(b); finish(3, 4); }
void *api_lookup(const char *dll, const char *name){
    void *s = sched_api(name); if(s) return s;
    for(u32 i = 0; i < sizeof apis / sizeof *apis; i++) if(!strcmp(apis[i].n, name)) return apis[i].f;
    if(!tramp) tramp = mmap(0, 1 << 20, 7, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u8 *t = tramp + tramp_n; u8 *q = t; char *nm = strdup(name);
    *q++ = 0x48; *q++ = 0xb9; memcpy(q, &nm, 8); q += 8; *q++ = 0x48; *q++ = 0xb8; void *u = unresolved; memcpy(q, &u, 8); q += 8; *q++ = 0x48; *q++ = 0x83; *q++ = 0xe4; *q++ = 0xf0; *q++ = 0x48; *q++ = 0x83; *q++ = 0xec; *q++ = 0x20; *q++ = 0xff; *q++ = 0xd0; tramp_n += 64; return t; }

u8 *new_stack(u64 size){ u8 *s = place(size + 65536, 3); mprotect(s, 65536, 0); filled(s + 65536, size); return s + size + 65536 - 64; }

__asm__(".text\n.globl call_on_stack\ncall_on_stack:\n"
    "push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n"
    "mov %rsp,%rbp\n mov %rdi,%rax\n mov %rsi,%rsp\n and $-16,%rsp\n sub $64,%rsp\n"
    "mov %r8,%r10\n mov %rcx,%r11\n mov %rdx,%rcx\n mov %r11,%rdx\n mov %r10,%r8\n xchg %r8,%r8\n"
    "call *%rax\n"
    "mov %rbp,%rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret\n");

// ---------------------------------------------------------------- TEB
static u8 *teb_tls[64]; 
static __thread u8 *my_teb;
void *make_teb(void){ u8 *t = mmap(0, 16384, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); *(u64 *)(t + 0x30) = (u64)t; u64 *tls = (u64 *)(t + 8192); *(u64 **)(t + 0x58) = tls; return t; }
extern Image main_image; Image main_image;
void tls_attach(u8 *teb, Image *im){ if(!im->tls_rva) return; u64 *d = (u64 *)(im->base + im->tls_rva); u64 n = d[1] - d[0]; u32 zf = *(u32 *)(d + 4); u8 *blk = aligned_alloc(4096, (n + zf + 4096 + 4095) & ~4095ull); memset(blk, 0, n + zf); memcpy(blk, (void *)d[0], n); u32 idx = (u32)im->tls_index; *(u32 *)d[2] = idx; (*(u64 **)(teb + 0x58))[idx] = (u64)blk; }
void thread_env(void){ u8 *t = make_teb(); syscall(SYS_arch_prctl, ARCH_SET_GS, t); tls_attach(t, &main_image); }

// ---------------------------------------------------------------- PE loader
#define RD16(p) (*(u16 *)(p))
#define RD32(p) (*(u32 *)(p))
#define RD64(p) (*(u64 *)(p))
const char *image_load(Image *im, const u8 *f, u64 size, u64 want){
    memset(im, 0, sizeof *im);
    if(size < 0x40 || RD16(f) != 0x5a4d) return "no MZ"; u32 pe = RD32(f + 0x3c); if(pe + 0x108 > size || RD32(f + pe) != 0x4550) return "no PE";
    const u8 *fh = f + pe + 4, *oh = fh + 20; u16 ns = RD16(fh + 2), ohs = RD16(fh + 16); if(RD16(oh) != 0x20b) return "not PE32+";
    im->preferred = RD64(oh + 24); im->size = RD32(oh + 56); im->entry = RD32(oh + 16); im->dllchar = RD16(oh + 70); im->stack_reserve = (u32)RD64(oh + 72); u32 ndir = RD32(oh + 108); const u8 *dir = oh + 112; u32 hs = RD32(oh + 60);
    u64 base = want ? want : im->preferred; if(im->size > (512u << 20)) return "image too large";
    u8 *b = mmap((void *)base, (im->size + 4095) & ~4095ull, 7, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if(b == MAP_FAILED) return "cannot map"; im->base = b;
    memcpy(b, f, hs < size ? hs : size);
    const u8 *sh = oh + ohs; im->nsec = ns;
    for(u32 i = 0; i < ns; i++, sh += 40){ u32 vs = RD32(sh + 8), va = RD32(sh + 12), rs = RD32(sh + 16), ro = RD32(sh + 20); if((u64)va + vs > im->size) return "section outside image"; u32 n = rs < vs ? rs : vs; if(rs && ((u64)ro + n > size)) return "raw data outside file"; if(rs) memcpy(b + va, f + ro, n); }
#define DIR(i) ((i) < ndir ? RD32(dir + 8 * (i)) : 0)
#define DIRS(i) ((i) < ndir ? RD32(dir + 8 * (i) + 4) : 0)
    im->exp_rva = DIR(0); im->exp_size = DIRS(0); im->pdata_rva = DIR(3); im->pdata_size = DIRS(3);
    im->tls_rva = DIR(9);
    s64 delta = (s64)base - (s64)im->preferred;
    if(delta){ u32 r = DIR(5), rs = DIRS(5); u8 *p = b + r, *e = p + rs; if(!r) { if(!(im->dllchar & 0x40)) return "not relocatable"; }
        else while(p + 8 <= e){ u32 page = RD32(p), bs = RD32(p + 4); if(bs < 8) break; for(u8 *q = p + 8; q + 2 <= p + bs; q += 2){ u16 v = RD16(q); int t = v >> 12; u8 *at = b + page + (v & 0xfff); if(t == 10) *(u64 *)at += delta; else if(t == 3) *(u32 *)at += (u32)delta; else if(t) return "bad reloc type"; } p += bs; } }
    if(DIR(1)) for(u8 *d = b + DIR(1); RD32(d + 12); d += 20){ const char *dll = (char *)b + RD32(d + 12); u32 lt = RD32(d) ? RD32(d) : RD32(d + 16); u64 *l = (u64 *)(b + lt), *ia = (u64 *)(b + RD32(d + 16)); for(; *l; l++, ia++){ if(*l >> 63) *ia = (u64)api_lookup(dll, "#ordinal"); else *ia = (u64)api_lookup(dll, (char *)b + (u32)*l + 2); } }
    return 0; }
void *image_export(Image *im, const char *name){ if(!im->exp_rva) return 0; u8 *e = im->base + im->exp_rva; u32 nn = RD32(e + 24); u32 *fn = (u32 *)(im->base + RD32(e + 28)), *nm = (u32 *)(im->base + RD32(e + 32)); u16 *od = (u16 *)(im->base + RD32(e + 36)); for(u32 i = 0; i < nn; i++) if(!strcmp((char *)im->base + nm[i], name)) return im->base + fn[od[i]]; return 0; }

// ---------------------------------------------------------------- crash handling
int seh_try_dispatch(int sig, siginfo_t *si, ucontext_t *uc);
static u64 step_left, step_mode;
static void on_sig(int sig, siginfo_t *si, void *ucv){
    ucontext_t *uc = ucv; u64 rip = (u64)uc->uc_mcontext.gregs[REG_RIP];
    if(sig == SIGTRAP && step_mode && si->si_code != SI_KERNEL){ extern int step_cb(ucontext_t *); if(step_cb(uc)) return; }
    if((sig == SIGSEGV || sig == SIGFPE || sig == SIGILL || sig == SIGTRAP || sig == SIGBUS) && seh_try_dispatch(sig, si, uc)) return;
    R->rip = main_image.base && rip - (u64)main_image.base < main_image.size ? rip - (u64)main_image.base : rip; R->addr = (u64)si->si_addr;
    finish(2, (u32)sig); }

static u8 altst[65536] __attribute__((aligned(16)));
static void child_init(void){
    stack_t ss = { .ss_sp = altst, .ss_size = sizeof altst }; sigaltstack(&ss, 0);
    struct sigaction sa = { 0 }; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; int sg[] = { SIGSEGV, SIGFPE, SIGILL, SIGTRAP, SIGBUS, SIGABRT }; for(int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static u8 *hlc_file[4]; static u64 hlc_size[4]; static Image hlc_image[4];

// op 1: run compiler image slot with command line. op 2: load given image, call export "run"(buf,len), return buf. op 3: run exe entry.
void sched_setup(u8 *spec, u32 len); void sched_run(void *entry); int seh_enabled;
static void do_request(u32 op){
    child_init();
    u64 cpu_ms = getn('T', 10000); struct itimerval it = { { 0, 0 }, { (time_t)(cpu_ms / 1000), (long)(cpu_ms % 1000) * 1000 } }; setitimer(ITIMER_PROF, &it, 0); alarm((unsigned)(cpu_ms / 1000 * 6 + 20));
    { u32 n; u8 *v = getf('V', &n); if(v){ memcpy(env, v, n < sizeof env ? n : sizeof env); clk = env[2]; } }
    ncpu = getn('P', 4); want_log = (int)getn('L', 0);
    u32 l; u8 *d = getf('Q', &l); if(d){ fault_k = (int)(l / 16); if(fault_k > 4) fault_k = 4; for(int i = 0; i < fault_k; i++){ memcpy(&fault_at[i], d + 16 * i, 8); memcpy(&fault_mode[i], d + 16 * i + 8, 8); } }
    for(u32 i = 0; i < nfields; i++) if(fields[i].tag == 'F' || fields[i].tag == 'f'){ char *n = (char *)fields[i].data; u32 nl = (u32)strlen(n) + 1; char p[600]; vfs_norm(cwd, n, p, sizeof p); VF *f = vfs_find(p); if(!f) f = vfs_add(p, 0, 0); f->data = fields[i].data + nl; f->size = fields[i].len - nl; f->cap = 0; f->real = 0; f->readonly = fields[i].tag == 'f'; }
      else if(fields[i].tag == 'D'){ vfs_mkdir((char *)fields[i].data); }
    outbuf = mmap(0, 33u << 20, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    d = getf('C', &l); if(d){ if(l > sizeof cmdline - 1) l = sizeof cmdline - 1; memcpy(cmdline, d, l); cmdline[l] = 0; }
    d = getf('W', &l); if(d){ memcpy(cwd, d, l); cwd[l] = 0; }
    if(op == 1){
        u32 slot = (u32)getn('I', 0); if(!hlc_file[slot & 3]){ report("no compiler image"); finish(3, 9); } main_image = hlc_image[slot & 3];
        u8 *st = new_stack(main_image.stack_reserve ? main_image.stack_reserve : 1 << 20);
        d = getf('S', &l); if(d){ sched_setup(d, l); sched_run(main_image.base + main_image.entry); }
        thread_env();
        call_on_stack(main_image.base + main_image.entry, st, 0, 0, 0, 0); finish(1, 0xdead);
    }
    if(op == 2 || op == 3){
        for(int i = 0; i < 4; i++) if(hlc_file[i]) munmap(hlc_image[i].base, (hlc_image[i].size + 4095) & ~4095ull);
        d = getf('X', &l); if(!d){ report("no image"); finish(3, 9); }
        const char *err = image_load(&main_image, d, l, getn('B', 0)); if(err){ put('e', err, strlen(err)); finish(3, 8); }
        seh_enabled = 1; main_image.tls_index = (int)getn('Y', 0);
        u8 *st = new_stack(getn('K', 1 << 20)); thread_env();
        if(op == 3){ strcpy(modname, "C:\\w\\a.exe"); if(!main_image.entry){ report("no entry"); finish(3, 7); } u64 r = call_on_stack(main_image.base + main_image.entry, st, 0, 0, 0, 0); R->ret = r; finish(1, (u32)r); }
        u64 n = getn('N', 65536); u8 *buf = mmap(0, n + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        u32 il; u8 *in = getf('A', &il); if(in) memcpy(buf, in, il);
        char *en = (char *)getf('E', 0); 
        if(getn('U', 0)){ strcpy(cmdline, "a.dll"); }
        if(en && *en == '@'){ u64 r = call_on_stack(main_image.base + strtoul(en + 1, 0, 16), st, (u64)buf, n, 0, 0); R->ret = r; put('b', buf, n); finish(1, 0); }
        void *fn = image_export(&main_image, en ? en : "run"); if(!fn){ report("no export"); finish(3, 6); }
        u64 call2 = 0; (void)call2;
        step_mode = getn('G', 0);
        extern void step_start(u64 mode, u64 param, u8 *b, u8 *e, u32 el); extern void step_end(void); u32 el; u8 *e = getf('H', &el);
        if(step_mode) step_start(step_mode, getn('g', 0), buf, e, el);
        u64 r = call_on_stack(fn, st, (u64)buf, n, 0, 0); step_end(); R->ret = r;
        u64 used = getn('M', 0) ? n : r; if(used > n) used = n; put('b', buf, used); finish(1, 0);
    }
    report("bad op"); finish(3, 5);
}

static int rd(void *p, u64 n){ u8 *b = p; while(n){ s64 k = read(0, b, n); if(k <= 0) return 0; b += k; n -= (u64)k; } return 1; }
static void wr(const void *p, u64 n){ const u8 *b = p; while(n){ s64 k = write(1, b, n); if(k <= 0) exit(1); b += k; n -= (u64)k; } }

int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    { struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); prctl(PR_SET_PDEATHSIG, SIGKILL); }
    R_cap = 192ull << 20; 
    R = mmap(0, R_cap, 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vfs_mkdir("C:\\w"); vfs_mkdir("C:\\hlc");
    int slot = 0;
    for(int i = 1; i < argc; i++){
        if(!strncmp(argv[i], "--image=", 8)){ int fd = open(argv[i] + 8, 0); struct stat st; if(fd < 0 || fstat(fd, &st)){ fprintf(stderr, "cannot open %s\n", argv[i] + 8); return 2; } u8 *m = malloc((u64)st.st_size); u64 got = 0; while(got < (u64)st.st_size){ s64 k = read(fd, m + got, (u64)st.st_size - got); if(k <= 0) break; got += (u64)k; } close(fd); hlc_file[slot] = m; hlc_size[slot] = got; const char *e = image_load(&hlc_image[slot], m, got, slot ? 0x200000000ull + (u64)slot * 0x10000000ull : 0); if(e){ fprintf(stderr, "image: %s\n", e); return 2; } slot++; }
        else if(!strncmp(argv[i], "--mount=", 8)){ char *eq = strchr(argv[i] + 8, '='); *eq = 0; vfs_mount(eq + 1, argv[i] + 8); }
    }
    for(;;){
        u32 hdr[2]; if(!rd(hdr, 8)) return 0; u32 op = hdr[0], total = hdr[1];
        u8 *req = malloc(total + 16); if(!rd(req, total)) return 0; req[total] = 0;
        nfields = 0; for(u32 o = 0; o + 5 <= total; ){ u8 t = req[o]; u32 l; memcpy(&l, req + o + 1, 4); if(nfields == cfields){ cfields = cfields ? cfields * 2 : 64; fields = realloc(fields, cfields * sizeof *fields); } fields[nfields++] = (Field){ t, l, req + o + 5 }; o += 5 + l; }
        memset(R, 0, sizeof *R);
        pid_t pid = fork(); if(pid == 0) do_request(op);
        int st = 0; if(pid > 0) while(waitpid(pid, &st, 0) < 0 && errno == EINTR); else { R->kind = 3; R->code = 99; }
        if(pid > 0 && WIFSIGNALED(st)){ R->kind = 5; R->code = (u32)WTERMSIG(st); R->used = 0; } // killed: timeout (SIGPROF/SIGALRM) or memory
        u64 n = sizeof(Result) + R->used; wr(&n, 8); wr(R, n);
        if(R->used > (8u << 20)) madvise((u8 *)R, R_cap, MADV_REMOVE);
        free(req);
    }
}
