/* Common part of all harnesses: the code under test, random numbers, fixed arenas, progress file. */
#ifndef VT_CORE_H
#define VT_CORE_H
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "sljitLir.h" /* sljitLir.c is compiled separately, only its public interface is used */

typedef sljit_uw uw;
typedef sljit_sw sw;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef int32_t s32;
typedef uint16_t u16;
typedef uint8_t u8;

#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
#define W64 1
#define WBITS 64
#define WBYTES 8
#else
#define W64 0
#define WBITS 32
#define WBYTES 4
#endif

/* ---------- random numbers ---------- */
static u64 rs[2];
static u64 splitmix(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void rseed(u64 seed, u64 idx) { u64 x = seed * 0x2545F4914F6CDD1Dull + idx * 0x9E3779B97F4A7C15ull + 0x1234567; rs[0] = splitmix(&x); rs[1] = splitmix(&x); }
static u64 r64(void) { u64 s1 = rs[0], s0 = rs[1], r = s0 + s1; rs[0] = s0; s1 ^= s1 << 23; rs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r; }
static u32 rn(u32 n) { return n ? (u32)((r64() >> 32) * n >> 32) : 0; }
static int rp(int pct) { return rn(100) < (u32)pct; }
static int rrange(int a, int b) { return a + (int)rn((u32)(b - a + 1)); }

/* boundary biased integers */
static u64 rval(void)
{
	u64 v; int k;
	switch (rn(23)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return (u64)-1;
	case 3: case 4: return (u64)(s64)rrange(-20, 20);
	case 5: case 6: case 7: v = (u64)1 << rn(64); v += (u64)(s64)rrange(-2, 2); return rp(40) ? (u64)0 - v : v;
	case 8: k = (int)rn(64); v = ((u64)1 << k) - 1; k = (int)rn(64); v = k ? (v << k) | (v >> (64 - k)) : v; return rp(30) ? ~v : v; /* mask, rotated */
	case 9: v = rn(256); v = v * 0x0101010101010101ull; switch (rn(3)) { case 0: v &= 0x00ff00ff00ff00ffull; break; case 1: v &= 0xff00ff00ff00ff00ull; break; } return v;
	case 10: v = r64() & 0xffff; return v << (16 * rn(4));
	case 11: v = r64() & 0xff; return v << rn(57);
	case 12: v = r64() & 0xfff; if (rp(50)) v <<= 12; return rp(40) ? (u64)0 - v : v;
	case 13: v = (u32)r64(); return rp(50) ? (u64)(s64)(s32)v : v;
	case 14: v = (u64)(s64)(s32)((u32)1 << rn(32)); v += (u64)(s64)rrange(-2, 2); return v;
	case 15: return (u64)(s64)(s32)(0x80000000u + (u32)rrange(-2, 2));
	case 16: return 0x7fffffffffffffffull + (u64)rn(3);
	case 17: k = (int)rn(64); return r64() >> k;
	case 18: k = (int)rn(64); return (u64)((s64)r64() >> k);
	case 19: case 20: { static const u8 lim[16] = { 7, 8, 8, 9, 10, 11, 11, 11, 12, 12, 13, 15, 15, 16, 19, 31 }; /* limits of immediates and displacements */
		v = (u64)1 << lim[rn(16)]; if (rp(50)) v += (u64)(s64)rrange(-1, 1); return rp(50) ? (u64)0 - v : v; }
	default: return r64();
	}
}

/* ---------- fixed arenas ---------- */
#define AR_SIZE 2048 /* compared part of an arena */
#define AR_WIN 512 /* accesses are in [AR_WIN, AR_SIZE - AR_WIN) */
#define AR_LOW 0x30000000ul
#if W64
#define AR_HIGH 0x3412345000ul
#define N_AR 2
#else
#define AR_HIGH 0x7654000ul
#define N_AR 2
#endif
#define AR_MAPSIZE 0x20000
static u8 *arena[N_AR]; /* address of the compared part */

static void *fixmap(uw addr, size_t size)
{
	void *p = mmap((void*)addr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)addr) { if (p != MAP_FAILED) munmap(p, size); p = mmap((void*)addr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
	if (p == MAP_FAILED) { fprintf(stderr, "INFRA: cannot map arena\n"); exit(99); }
	return p;
}

/* state block: initial and final register values; lives at a fixed address too */
#define SB_NR 32
#define SB_NF 40
typedef struct { uw r[SB_NR]; u64 f[SB_NF]; u8 v[SB_NF][64]; uw out[64]; uw guard[8]; } sblock;
static sblock *sb;

static void core_init(void)
{
	arena[0] = (u8*)fixmap(AR_LOW, AR_MAPSIZE) + 0x10000;
	arena[1] = (u8*)fixmap(AR_HIGH, AR_MAPSIZE) + 0x10000;
	sb = (sblock*)fixmap(AR_LOW + 0x100000, 0x10000);
}

/* ---------- progress shared with the driver ---------- */
typedef struct { u64 cur; u64 cases; u64 nontriv; u64 instrs; u64 distinct; u64 skipped; u64 phase; u64 extra[56]; } progress;
static progress progress_dummy;
static progress *pg = &progress_dummy;
static void progress_open(const char *file)
{
	int fd; void *p;
	if (!file || !*file || !strcmp(file, "-")) return;
	fd = open(file, O_RDWR | O_CREAT, 0644);
	if (fd < 0 || ftruncate(fd, 4096) != 0) { fprintf(stderr, "INFRA: progress\n"); exit(99); }
	p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (p == MAP_FAILED) { fprintf(stderr, "INFRA: progress map\n"); exit(99); }
	pg = (progress*)p;
	memset(pg, 0, sizeof(*pg));
}

static u64 now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000 + (u64)(t.tv_nsec / 1000000); }
static void on_alarm(int sig) { (void)sig; static const char m[] = "HANG\n"; if (write(2, m, 5)) {} _exit(12); }
/* A hang is measured in CPU time of this process, not in wall clock time: the machine may be loaded. */
static void arm_watchdog(int sec) { struct itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_sec = sec; signal(SIGPROF, on_alarm); setitimer(ITIMER_PROF, &it, NULL); }

/* a run ends at this case (used to replay a history) */
static u64 stop_at(void) { const char *s = getenv("VT_STOP_AT"); return s && *s ? strtoull(s, NULL, 10) : ~(u64)0; }

/* small set for counting distinct cases (hash set, saturating) */
#define DSET_BITS 20
static u64 *dset;
static int dset_add(u64 h)
{
	u32 i, n;
	if (!dset) dset = (u64*)calloc((size_t)1 << DSET_BITS, 8);
	if (!h) h = 1;
	i = (u32)(h >> (64 - DSET_BITS));
	for (n = 0; n < 64; n++, i = (i + 1) & ((1u << DSET_BITS) - 1)) {
		if (dset[i] == h) return 0;
		if (!dset[i]) { dset[i] = h; return 1; }
	}
	return 0;
}
static u64 fnv(u64 h, const void *p, size_t n) { const u8 *b = (const u8*)p; while (n--) h = (h ^ *b++) * 0x100000001b3ull; return h; }

#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
#define IS_VIRT(r) ((r) >= 4 && (r) <= 9) /* documented: S3.. are virtual, cannot be used for addressing */
#else
#define IS_VIRT(r) 0
#endif
#define NREGS SLJIT_NUMBER_OF_REGISTERS
#define NFREGS SLJIT_NUMBER_OF_FLOAT_REGISTERS
#endif
