// Linked into the checked daemon in front of a few libc calls (-Wl,--wrap=...).
// Without the VP_* environment variables every call passes through unchanged.
//   VP_CLOCK=<file>  16 bytes {int64 mode, int64 value}: 0 real, 1 real+value, 2 = value
//   VP_FSOPS=<file>  792 bytes {int64 counter, int64 kill_at, int64 unused, char at[256], char before[512]}: the
//                    process is killed when the counter of file-changing calls reaches kill_at; at receives
//                    the call it died at and before the last rename or removal done
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>

static int64_t* map_env(const char* name, size_t size)
{
	const char* p = getenv(name);
	if (!p) return nullptr;
	int fd = ::open(p, O_RDWR);
	if (fd < 0) return nullptr;
	void* m = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	return m == MAP_FAILED ? nullptr : (int64_t*)m;
}
static int64_t* clk() { static int64_t* m = map_env("VP_CLOCK", 16); return m; }
static int64_t* fso() { static int64_t* m = map_env("VP_FSOPS", 792); return m; }

// true: this is the operation to die at
static bool tick()
{
	int64_t* m = fso();
	if (!m) return false;
	int64_t n = __atomic_add_fetch(&m[0], 1, __ATOMIC_SEQ_CST);
	int64_t k = __atomic_load_n(&m[1], __ATOMIC_SEQ_CST);
	return k > 0 && n >= k;
}
static void note(const char* op, const char* a, const char* b)
{
	int64_t* m = fso();
	if (m) snprintf((char*)(m + 3) + 256, 512, "%s %s %s", op, a, b);
}
static void die(const char* op, const char* a)
{
	snprintf((char*)(fso() + 3), 256, "%s %s", op, a);
	kill(getpid(), SIGKILL);
	for (;;) pause();
}

extern "C"
{
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t)
{
	int64_t* m = clk();
	time_t r = __real_time(nullptr);
	if (m)
	{
		int64_t mode = __atomic_load_n(&m[0], __ATOMIC_SEQ_CST), v = __atomic_load_n(&m[1], __ATOMIC_SEQ_CST);
		if (mode == 1) r += v; else if (mode == 2) r = v;
	}
	if (t) *t = r;
	return r;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* tz) { return __real_gettimeofday(tv, tz); }

FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* f, const char* m)
{
	if (m[0] != 'r' || m[1] == '+' || (m[1] && m[2] == '+')) if (tick()) die("open", f);
	return __real_fopen(f, m);
}
FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen64(const char* f, const char* m) { return __wrap_fopen(f, m); }
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f)
{
	if (f != stdout && f != stderr && tick())
	{
		__real_fwrite(p, 1, s * n / 2, f);
		fflush(f);
		char l[64], path[200];
		snprintf(l, sizeof(l), "/proc/self/fd/%i", fileno(f));
		ssize_t k = readlink(l, path, sizeof(path) - 1);
		path[k < 0 ? 0 : k] = 0;
		die("write", path);
	}
	return __real_fwrite(p, s, n, f);
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) { return __real_fclose(f); }
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) { return __real_fflush(f); }
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) { if (tick()) die("rename", b); int r = __real_rename(a, b); if (!r) note("rename", a, b); return r; }
int __real_unlink(const char*);
int __wrap_unlink(const char* a) { if (tick()) die("remove", a); int r = __real_unlink(a); if (!r) note("remove", a, ""); return r; }
int __real_remove(const char*);
int __wrap_remove(const char* a) { if (tick()) die("remove", a); int r = __real_remove(a); if (!r) note("remove", a, ""); return r; }
int __real_fdatasync(int);
int __wrap_fdatasync(int f) { return __real_fdatasync(f); }
int __real_fsync(int);
int __wrap_fsync(int f) { return __real_fsync(f); }
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* a, mode_t m) { if (tick()) die("mkdir", a); return __real_mkdir(a, m); }
int __real_rmdir(const char*);
int __wrap_rmdir(const char* a) { if (tick()) die("rmdir", a); return __real_rmdir(a); }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int f, off_t l) { if (tick()) die("truncate", ""); return __real_ftruncate(f, l); }
int __real_ftruncate64(int, off_t);
int __wrap_ftruncate64(int f, off_t l) { return __wrap_ftruncate(f, l); }
int __real_open(const char*, int, ...);
int __wrap_open(const char* f, int fl, ...)
{
	va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
	return __real_open(f, fl, m);
}
int __wrap_open64(const char* f, int fl, ...)
{
	va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
	return __real_open(f, fl, m);
}
}
