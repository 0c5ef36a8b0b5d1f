/* Stand-ins for the system calls of the code under test (ld --wrap): a table of its mappings and open files, and injected failures.
   Only calls made between os_enter() and os_leave() belong to the code under test, all others go through. */
#ifndef VT_OSFAULT_H
#define VT_OSFAULT_H
#include <sys/stat.h>
/* the 32 bit C libraries have two versions of some of them, and the headers may select any of these */
void *__real_mmap(void *a, size_t l, int p, int f, int fd, long o);
void *__real_mmap64(void *a, size_t l, int p, int f, int fd, s64 o);
int __real_ftruncate64(int fd, s64 l);
int __real_munmap(void *a, size_t l);
int __real_mprotect(void *a, size_t l, int p);
int __real_ftruncate(int fd, long l);
int __real_open(const char *n, int f, ...);
int __real_close(int fd);
int __real_mkostemp(char *t, int f);
int __real_memfd_create(const char *n, unsigned f);
int __real_madvise(void *a, size_t l, int adv);
int __real_posix_madvise(void *a, size_t l, int adv);

typedef struct { u8 *p; uw len; int prot; int shared; } osmap;
#define OS_MAX 512
static osmap os_map[OS_MAX]; static int os_nmap;
static int os_fd[64], os_nfd;
static int os_in, os_fail /* fails the n-th call from now (1: next one), 0: none */, os_failed, os_nommap /* a new mapping is an error */;
static u64 os_calls, os_mmaps, os_munmaps;
static const char *os_err;
static void os_enter(int fail) { os_in = 1; os_fail = fail; os_failed = 0; os_calls = 0; }
static void os_leave(void) { os_in = 0; os_fail = 0; }
static int os_hit(void) { os_calls++; if (os_fail && --os_fail == 0) { os_failed = 1; return 1; } return 0; }
static osmap *os_find(const void *a, uw len) { int k; for (k = 0; k < os_nmap; k++) if ((u8*)a >= os_map[k].p && (uw)((u8*)a - os_map[k].p) <= os_map[k].len && len <= os_map[k].len - (uw)((u8*)a - os_map[k].p)) return &os_map[k]; return NULL; }

#define PG_UP(x) (((uw)(x) + 4095) & ~(uw)4095)
static void *os_mmap(void *a, size_t l, int p, int f, int fd, s64 o, int w)
{
	void *r;
	if (!os_in) return w ? __real_mmap64(a, l, p, f, fd, o) : __real_mmap(a, l, p, f, fd, (long)o);
	if (os_hit()) { errno = ENOMEM; return MAP_FAILED; }
	if ((uw)l > (uw)1 << 22) { errno = ENOMEM; return MAP_FAILED; } /* the search does not need huge mappings */
	os_mmaps++;
	r = w ? __real_mmap64(a, l, p, f, fd, o) : __real_mmap(a, l, p, f, fd, (long)o);
	if (r != MAP_FAILED) {
		if (os_nmap < OS_MAX) { os_map[os_nmap].p = (u8*)r; os_map[os_nmap].len = PG_UP(l); os_map[os_nmap].prot = p; os_map[os_nmap++].shared = !!(f & MAP_SHARED); }
		else os_err = "too many mappings";
	}
	return r;
}
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, long o) { return os_mmap(a, l, p, f, fd, o, 0); }
void *__wrap_mmap64(void *a, size_t l, int p, int f, int fd, s64 o) { return os_mmap(a, l, p, f, fd, o, 1); }
int __wrap_munmap(void *a, size_t l)
{
	int k;
	if (!os_in) return __real_munmap(a, l);
	os_munmaps++;
	for (k = 0; k < os_nmap; k++) if (os_map[k].p == (u8*)a && os_map[k].len == PG_UP(l)) { os_map[k] = os_map[--os_nmap]; return __real_munmap(a, l); }
	os_err = "munmap of a region that is not one of its mappings";
	return 0; /* not done: it may be anything */
}
int __wrap_mprotect(void *a, size_t l, int p)
{
	osmap *m;
	if (!os_in) return __real_mprotect(a, l, p);
	if (!(m = os_find(a, l))) { os_err = "mprotect of a region outside of its mappings"; return 0; }
	return __real_mprotect(a, l, p);
}
int __wrap_ftruncate(int fd, long l) { if (os_in && os_hit()) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, l); }
static int os_newfd(int fd) { if (fd >= 0 && os_nfd < 64) os_fd[os_nfd++] = fd; return fd; }
int __wrap_open(const char *n, int f, ...)
{
	va_list ap; int m; va_start(ap, f); m = va_arg(ap, int); va_end(ap);
	if (!os_in) return __real_open(n, f, m);
	if (os_hit()) { errno = EMFILE; return -1; }
	return os_newfd(__real_open(n, f, m));
}
int __wrap_mkostemp(char *t, int f) { if (!os_in) return __real_mkostemp(t, f); if (os_hit()) { errno = EMFILE; return -1; } return os_newfd(__real_mkostemp(t, f)); }
int __wrap_memfd_create(const char *n, unsigned f) { if (!os_in) return __real_memfd_create(n, f); if (os_hit()) { errno = EMFILE; return -1; } return os_newfd(__real_memfd_create(n, f)); }
int __wrap_close(int fd)
{
	int k;
	if (!os_in) return __real_close(fd);
	for (k = 0; k < os_nfd; k++) if (os_fd[k] == fd) { os_fd[k] = os_fd[--os_nfd]; return __real_close(fd); }
	os_err = "close of a file that it did not open"; errno = EBADF; return -1;
}
/* a page that is given back may lose its content at once */
static int os_drop(void *a, size_t l)
{
	u8 *p = (u8*)a; uw k;
	if ((uw)a & 4095) { errno = EINVAL; return -1; }
	if (!os_find(a, PG_UP(l))) { os_err = "madvise of a region outside of its mappings"; return 0; }
	l = PG_UP(l);
	for (k = 0; k < l; k += 64) memset(p + k, 0, 64);
	return 0;
}
int __wrap_madvise(void *a, size_t l, int adv) { if (!os_in) return __real_madvise(a, l, adv); if (os_hit()) { errno = EINVAL; return -1; } return adv == MADV_DONTNEED || adv == 8 /* MADV_FREE */ ? os_drop(a, l) : 0; }
int __wrap_posix_madvise(void *a, size_t l, int adv) { if (!os_in) return __real_posix_madvise(a, l, adv); (void)adv; if (os_hit()) return EINVAL; return 0; /* by POSIX, this advice does not change the content */ }
int __wrap_ftruncate64(int fd, s64 l) { if (os_in && os_hit()) { errno = ENOSPC; return -1; } return __real_ftruncate64(fd, l); }
int __wrap_open64(const char *n, int f, ...) { va_list ap; int m; va_start(ap, f); m = va_arg(ap, int); va_end(ap); return __wrap_open(n, f, m); }
int __wrap_mkostemp64(char *t, int f) { return __wrap_mkostemp(t, f); }
#endif
