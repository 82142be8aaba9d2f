/* Interposition layer linked into the server under test with -Wl,--wrap=SYM.
 *
 * Everything it does is off unless SCV_CTL names a control page (an mmapped file
 * of 64-bit words shared with the harness); then the harness owns the wall clock
 * seen by the server, can make socket and disk I/O short or fail, can stop every
 * server process at the n-th file-system operation, can hold the flushing child
 * back, and can read allocation counts.  Nothing here knows how the server is
 * written: only libc calls are seen.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum {
	C_MAGIC, C_TIME_MODE, C_TIME_SEC, C_TIME_USEC, C_TICKS,
	C_LIVE_BYTES, C_LIVE_COUNT,
	C_SOCK_MODE, C_SOCK_PRNG, C_SOCK_MAX, C_SOCK_FAULTS,
	C_DISK_MODE, C_DISK_BUDGET, C_DISK_PRNG, C_DISK_FAULTS,
	C_COUNT_OPS, C_OPS, C_CRASH_AT, C_CRASHED, C_CRASH_PARTIAL,
	C_FORK_MODE, C_RELEASE, C_CHILD_STARTED, C_CHILD_DONE,
	C_MAIN_PID, C_CHILD_PID, C_LOOPS, C_TRACE_LEN, C_SNDBUF, C_HOLD_OP, C_HELD,
	C_TRACE = 64, C_WORDS = 512
};

static volatile uint64_t dummy[C_WORDS];
static volatile uint64_t *ctl = dummy;
static int on = 0;
static int counting = 1;          /* allocations of a forked child do not count */
static pid_t main_pid;

#define ADD(i, v) __atomic_add_fetch(&ctl[i], (v), __ATOMIC_SEQ_CST)
#define GET(i) __atomic_load_n(&ctl[i], __ATOMIC_SEQ_CST)
#define SET(i, v) __atomic_store_n(&ctl[i], (v), __ATOMIC_SEQ_CST)

__attribute__((constructor)) static void init(void)
{
	const char *p = getenv("SCV_CTL");
	main_pid = getpid();
	if (!p) return;
	int fd = open(p, O_RDWR | O_CLOEXEC);
	if (fd < 0) return;
	void *m = mmap(NULL, C_WORDS * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	syscall(SYS_close, fd);
	if (m == MAP_FAILED) return;
	/* what was allocated before this constructor is not counted */
	ctl = (volatile uint64_t *)m;
	on = 1;
	SET(C_MAIN_PID, main_pid);
}

static uint64_t prng(int idx)
{
	/* xorshift on a shared word: only the main thread does client and disk I/O */
	uint64_t x = GET(idx);
	if (!x) x = 88172645463325252ull;
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	SET(idx, x);
	return x >> 11;
}

/* ---------------------------------------------------------------- clock -- */
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	int r = __real_gettimeofday(tv, tz);
	if (on && tv) {
		if (GET(C_TIME_MODE)) { tv->tv_sec = GET(C_TIME_SEC); tv->tv_usec = GET(C_TIME_USEC); }
		if (getpid() == main_pid) ADD(C_TICKS, 1);
	}
	return r;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	int r = __real_clock_gettime(c, ts);
	if (on && ts && GET(C_TIME_MODE) &&
	    (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE)) {
		ts->tv_sec = GET(C_TIME_SEC); ts->tv_nsec = GET(C_TIME_USEC) * 1000;
		if (getpid() == main_pid) ADD(C_TICKS, 1);
	}
	return r;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
	time_t r = __real_time(NULL);
	if (on && GET(C_TIME_MODE)) { r = GET(C_TIME_SEC); if (getpid() == main_pid) ADD(C_TICKS, 1); }
	if (t) *t = r;
	return r;
}

/* --------------------------------------------------------- file-system ops */
static void die_all(void)
{
	SET(C_CRASHED, 1);
	pid_t child = (pid_t)GET(C_CHILD_PID), mainp = (pid_t)GET(C_MAIN_PID), self = getpid();
	if (child && child != self) kill(child, SIGKILL);
	if (mainp && mainp != self) kill(mainp, SIGKILL);
	kill(self, SIGKILL);
	for (;;) pause();
}

static void trace(char kind)
{
	uint64_t n = ADD(C_TRACE_LEN, 1) - 1;
	if (n < (C_WORDS - C_TRACE) * 8) ((volatile char *)&ctl[C_TRACE])[n] = kind;
}

/* returns 1 when the operation about to run is the one to crash in */
static void child_hold(void)
{
	ADD(C_HELD, 1);
	/* also when the server has ended meanwhile: a flush that outlives it is what a slow disk would show */
	for (int n = 0; !GET(C_RELEASE); n++) {
		if (n > 60000 || GET(C_CRASHED)) syscall(SYS_exit_group, 1);
		usleep(300);
	}
}
static uint64_t child_ops;
static int fsop(char kind)
{
	/* a flushing child waits before its n-th file operation */
	if (on && !counting && ++child_ops == GET(C_HOLD_OP)) child_hold();
	if (!on || !GET(C_COUNT_OPS)) return 0;
	if (GET(C_CRASHED)) die_all();
	uint64_t n = ADD(C_OPS, 1);
	trace(getpid() == main_pid ? kind : kind + 32);
	return GET(C_CRASH_AT) && n == GET(C_CRASH_AT);
}

static int is_sock(int fd)
{
	struct stat st;
	return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}
static int is_reg(int fd)
{
	struct stat st;
	return fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

/* decide how many of n bytes a socket takes now: -1 means "try again" */
static ssize_t sock_take(size_t n)
{
	uint64_t mode = GET(C_SOCK_MODE);
	if (!on || !mode || n == 0) return n;
	uint64_t r = prng(C_SOCK_PRNG);
	if ((mode & 2) && r % 5 == 0) { ADD(C_SOCK_FAULTS, 1); return -1; }
	if (mode & 1) {
		uint64_t max = GET(C_SOCK_MAX);
		uint64_t k = 1 + (r >> 8) % (max ? max : 1);
		if (k < n) { ADD(C_SOCK_FAULTS, 1); return k; }
	}
	return n;
}
/* mode 1: budget of bytes, then ENOSPC; mode 2: short writes; mode 4: random EINTR-free failures */
static ssize_t disk_take(size_t n)
{
	uint64_t mode = GET(C_DISK_MODE);
	if (!on || !mode || n == 0) return n;
	if (mode & 2) {
		uint64_t r = prng(C_DISK_PRNG);
		if (r % 2 == 0 && n > 1) { ADD(C_DISK_FAULTS, 1); n = 1 + (r >> 8) % (n - 1); }
	}
	if (mode & 4) {
		uint64_t r = prng(C_DISK_PRNG);
		if (r % 4 == 0) { ADD(C_DISK_FAULTS, 1); errno = EIO; return -1; }
	}
	if (mode & 1) {
		uint64_t b = GET(C_DISK_BUDGET);
		if (b == 0) { ADD(C_DISK_FAULTS, 1); errno = ENOSPC; return -1; }
		if (n > b) { ADD(C_DISK_FAULTS, 1); n = b; }
		SET(C_DISK_BUDGET, b - n);
	}
	return n;
}

#define PARTIAL(n) ((n) ? (size_t)(GET(C_CRASH_PARTIAL) % (n)) : 0)

ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!on) return __real_write(fd, b, n);
	if (is_sock(fd)) {
		ssize_t k = sock_take(n);
		if (k < 0) { errno = EAGAIN; return -1; }
		return __real_write(fd, b, k);
	}
	if (is_reg(fd)) {
		if (fsop('W')) { size_t k = PARTIAL(n); if (k) __real_write(fd, b, k); die_all(); }
		ssize_t k = disk_take(n);
		if (k < 0) return -1;
		return __real_write(fd, b, k);
	}
	return __real_write(fd, b, n);
}
#define PW(NAME) \
ssize_t __real_##NAME(int fd, const void *b, size_t n, off_t o); \
ssize_t __wrap_##NAME(int fd, const void *b, size_t n, off_t o) \
{ \
	if (on && is_reg(fd)) { \
		if (fsop('W')) { size_t k = PARTIAL(n); if (k) __real_##NAME(fd, b, k, o); die_all(); } \
		ssize_t k = disk_take(n); \
		if (k < 0) return -1; \
		return __real_##NAME(fd, b, k, o); \
	} \
	return __real_##NAME(fd, b, n, o); \
}
PW(pwrite)
PW(pwrite64)
ssize_t __real_writev(int fd, const struct iovec *v, int c);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	if (on && c > 0) {
		/* deliver the first non-empty piece only: a legal short write */
		int i = 0;
		while (i < c - 1 && v[i].iov_len == 0) i++;
		if (is_reg(fd) || GET(C_SOCK_MODE)) return __wrap_write(fd, v[i].iov_base, v[i].iov_len);
	}
	return __real_writev(fd, v, c);
}
ssize_t __real_send(int fd, const void *b, size_t n, int f);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f)
{
	ssize_t k = on ? sock_take(n) : (ssize_t)n;
	if (k < 0) { errno = EAGAIN; return -1; }
	return __real_send(fd, b, k, f);
}
#define SF(NAME) \
ssize_t __real_##NAME(int o, int i, off_t *p, size_t n); \
ssize_t __wrap_##NAME(int o, int i, off_t *p, size_t n) \
{ \
	if (on && is_sock(o)) { \
		ssize_t k = sock_take(n); \
		if (k < 0) { errno = EAGAIN; return -1; } \
		return __real_##NAME(o, i, p, k); \
	} \
	if (on && is_reg(o)) { \
		if (fsop('W')) { size_t k = PARTIAL(n); if (k) __real_##NAME(o, i, p, k); die_all(); } \
		ssize_t k = disk_take(n); \
		if (k < 0) return -1; \
		return __real_##NAME(o, i, p, k); \
	} \
	return __real_##NAME(o, i, p, n); \
}
SF(sendfile)
SF(sendfile64)
ssize_t __real_copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f);
ssize_t __wrap_copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
	if (on) {
		if (fsop('W')) { size_t k = PARTIAL(n); if (k) __real_copy_file_range(i, io, o, oo, k, f); die_all(); }
		ssize_t k = disk_take(n);
		if (k < 0) return -1;
		n = k;
	}
	return __real_copy_file_range(i, io, o, oo, n, f);
}
#define PRE(k) if (on && fsop(k)) die_all()
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) { PRE('R'); return __real_rename(a, b); }
int __real_unlink(const char *a);
int __wrap_unlink(const char *a) { PRE('U'); return __real_unlink(a); }
int __real_remove(const char *a);
int __wrap_remove(const char *a) { PRE('U'); return __real_remove(a); }
int __real_link(const char *a, const char *b);
int __wrap_link(const char *a, const char *b) { PRE('L'); return __real_link(a, b); }
int __real_mkdir(const char *a, mode_t m);
int __wrap_mkdir(const char *a, mode_t m) { PRE('M'); return __real_mkdir(a, m); }
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n) { PRE('T'); return __real_ftruncate(fd, n); }
int __real_ftruncate64(int fd, off64_t n);
int __wrap_ftruncate64(int fd, off64_t n) { PRE('T'); return __real_ftruncate64(fd, n); }
int __real_fallocate(int fd, int m, off_t o, off_t n);
int __wrap_fallocate(int fd, int m, off_t o, off_t n) { PRE('T'); return __real_fallocate(fd, m, o, n); }
int __real_system(const char *c);
int __wrap_system(const char *c) { PRE('S'); return __real_system(c); }
#include <spawn.h>
#define SPAWN(NAME) \
int __real_##NAME(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]); \
int __wrap_##NAME(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) \
{ PRE('S'); return __real_##NAME(p, f, a, t, v, e); }
SPAWN(posix_spawn)
SPAWN(posix_spawnp)
#define OPEN(NAME) \
int __real_##NAME(const char *p, int f, ...); \
int __wrap_##NAME(const char *p, int f, ...) \
{ \
	va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
	if (f & (O_CREAT | O_TRUNC)) { PRE('O'); } \
	return __real_##NAME(p, f, m); \
}
OPEN(open)
OPEN(open64)
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) { if (m[0] != 'r') { PRE('O'); } return __real_fopen(p, m); }
FILE *__real_fopen64(const char *p, const char *m);
FILE *__wrap_fopen64(const char *p, const char *m) { if (m[0] != 'r') { PRE('O'); } return __real_fopen64(p, m); }

/* ------------------------------------------------------------------ fork -- */
pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	pid_t p = __real_fork();
	if (!on) return p;
	if (p == 0) {
		counting = 0;
		SET(C_CHILD_PID, getpid());
		ADD(C_CHILD_STARTED, 1);
		if (GET(C_FORK_MODE) == 2 && !GET(C_HOLD_OP)) child_hold();
	} else if (p > 0 && GET(C_FORK_MODE) == 1) {
		siginfo_t si;
		/* let the child finish first; leave it to be reaped by the server */
		while (waitid(P_PID, p, &si, WEXITED | WNOWAIT) == -1 && errno == EINTR) ;
	}
	return p;
}
void __real__exit(int c) __attribute__((noreturn));
void __wrap__exit(int c)
{
	if (on && getpid() != main_pid) ADD(C_CHILD_DONE, 1);
	__real__exit(c);
}

/* ------------------------------------------------------------ event loop -- */
int __real_epoll_wait(int e, struct epoll_event *ev, int n, int t);
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int t)
{
	if (on && (pid_t)syscall(SYS_gettid) == main_pid) ADD(C_LOOPS, 1);
	/* shorter waits (a legal early timeout) make shutdowns quick */
	if (on && t > 20) t = 20;
	return __real_epoll_wait(e, ev, n, t);
}

/* small send buffers make a client that does not read stall its response early */
int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int f);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f)
{
	int r = __real_accept4(fd, a, l, f);
	int sz = on ? (int)GET(C_SNDBUF) : 0;
	if (r >= 0 && sz) { int e = errno; setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); errno = e; }
	return r;
}
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	int r = __real_accept(fd, a, l);
	int sz = on ? (int)GET(C_SNDBUF) : 0;
	if (r >= 0 && sz) { int e = errno; setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); errno = e; }
	return r;
}

/* ---------------------------------------------------------- allocations -- */
#ifdef SCV_COUNT_ALLOC
static void plus(void *p) { if (p && on && counting) { ADD(C_LIVE_BYTES, malloc_usable_size(p)); ADD(C_LIVE_COUNT, 1); } }
static void minus(void *p) { if (p && on && counting) { ADD(C_LIVE_BYTES, -malloc_usable_size(p)); ADD(C_LIVE_COUNT, -1); } }
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); plus(p); return p; }
void *__real_calloc(size_t a, size_t b);
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); plus(p); return p; }
void *__real_realloc(void *q, size_t n);
void *__wrap_realloc(void *q, size_t n) { minus(q); void *p = __real_realloc(q, n); plus(p ? p : (n ? q : NULL)); return p; }
void __real_free(void *p);
void __wrap_free(void *p) { minus(p); __real_free(p); }
char *__real_strdup(const char *s);
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); plus(p); return p; }
char *__real_strndup(const char *s, size_t n);
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); plus(p); return p; }
void *__real__Znwm(size_t n);
void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); plus(p); return p; }
void __real__ZdlPv(void *p);
void __wrap__ZdlPv(void *p) { minus(p); __real__ZdlPv(p); }
void __real__ZdlPvm(void *p, size_t n);
void __wrap__ZdlPvm(void *p, size_t n) { minus(p); __real__ZdlPvm(p, n); }
void *__real__Znam(size_t n);
void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); plus(p); return p; }
void __real__ZdaPv(void *p);
void __wrap__ZdaPv(void *p) { minus(p); __real__ZdaPv(p); }
#endif
