// hx: runs x64 Windows PE images (hlc.exe itself and what hlc.exe produces) natively on Linux against a
// virtual, in-memory Windows ("mini kernel32"). Nothing the images do reaches the real file system.
#ifndef HX_H
#define HX_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <asm/prctl.h>
#include <ucontext.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
#define MS __attribute__((ms_abi))

typedef struct { u8 *base; u64 size; u64 preferred; u32 entry; u32 exp_rva, exp_size, pdata_rva, pdata_size, tls_rva; u32 nsec; u32 stack_reserve; int tls_index; u16 dllchar; } Image;

// Result block in shared memory
typedef struct {
    u32 kind;        // 0 = did not finish, 1 = exited, 2 = crash(signal), 3 = harness limit, 4 = scheduler verdict
    u32 code;        // exit code or signal
    u64 rip, addr;   // crash info (rip relative to image base if inside)
    u64 ret;         // return value of called function
    u64 nfault;      // number of fault points passed
    u64 aux[8];
    u64 used;        // bytes used in payload
    u8  payload[];   // sequence of (u8 tag,u32 len, bytes)
} Result;

extern Result *R; extern u64 R_cap;
void put(u8 tag, const void *data, u64 len);
void put2(u8 tag, const void *a, u64 alen, const void *b, u64 blen);
void finish(u32 kind, u32 code) __attribute__((noreturn));
void *api_lookup(const char *dll, const char *name);
const char *image_load(Image *im, const u8 *file, u64 size, u64 want_base);
void *image_export(Image *im, const char *name);
u64 call_on_stack(void *fn, void *stack_top, u64 a, u64 b, u64 c, u64 d);
u8 *new_stack(u64 size);
void fault_reset(void);
void seh_raise(u32 code, u32 flags, u32 nparam, u64 *params, void *ctx);
#endif
