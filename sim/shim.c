/* Loaded into the inspection tool with LD_PRELOAD: gives the results of a script, decided by the
 * simulator, to its calls to open and read files and to write its output. Everything else is
 * passed on. The script and a log of what happened are in memory shared with the simulator. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NORMAL, SHORT, ERROR, KILL };
#define OPS 512
#define LOG 2048

struct op {
	uint32_t kind, value;
};
struct note {
	/* 'o' open, 'r' read, 'w' write, 'a' allocation */
	uint32_t call, kind, value, file;
};
struct shared {
	uint32_t n_open, n_read, n_write, n_log;
	struct op open[OPS], read[OPS], write[OPS];
	struct note log[LOG];
	/* of the allocations of at least this many bytes, these many fail from this one on */
	uint32_t alloc_min, alloc_from, alloc_count, n_alloc;
};

static struct shared *S;
static uint16_t file_of[1024];

__attribute__((constructor)) static void start(void)
{
	const char *v = getenv("MBSHIM_FD");
	if (!v)
		return;
	void *p = mmap(0, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(v), 0);
	if (p != MAP_FAILED)
		S = p;
	syscall(SYS_close, atoi(v));
}

static struct op next(struct op *ops, uint32_t *n, uint32_t call, uint32_t file)
{
	struct op o = { NORMAL, 0 };
	if (*n < OPS)
		o = ops[*n];
	(*n)++;
	if ((o.kind != NORMAL || call != 'w') && S->n_log < LOG)
		S->log[S->n_log++] = (struct note){ call, o.kind, o.value, file };
	if (o.kind == KILL)
		syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
	return o;
}

/* the simulator's files are called by number: 3_name.hex */
static const char *simulated(const char *path)
{
	const char *last = strrchr(path, '/');
	last = last ? last + 1 : path;
	return S && *last >= '0' && *last <= '9' ? last : 0;
}

static int no_memory(size_t n)
{
	if (!S || !S->alloc_count || n < S->alloc_min)
		return 0;
	uint32_t i = S->n_alloc++;
	if (i < S->alloc_from || i - S->alloc_from >= S->alloc_count)
		return 0;
	if (S->n_log < LOG)
		S->log[S->n_log++] = (struct note){ 'a', ERROR, ENOMEM, 0 };
	errno = ENOMEM;
	return 1;
}

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);

void *malloc(size_t n)
{
	return no_memory(n) ? 0 : __libc_malloc(n);
}
void *calloc(size_t k, size_t n)
{
	return no_memory(k * n) ? 0 : __libc_calloc(k, n);
}
void *realloc(void *p, size_t n)
{
	return no_memory(n) ? 0 : __libc_realloc(p, n);
}


static long raw(long n, long a, long b, long c, long d)
{
	return syscall(n, a, b, c, d);
}

static int do_open(int dir, const char *path, int flags, int mode)
{
	uint32_t file = 0;
	const char *name = simulated(path);
	if (name) {
		file = atoi(name) + 1;
		struct op o = next(S->open, &S->n_open, 'o', file);
		if (o.kind == ERROR) {
			errno = o.value;
			return -1;
		}
	}
	int fd = raw(SYS_openat, dir, (long)path, flags, mode);
	if (fd >= 0 && fd < 1024)
		file_of[fd] = file;
	return fd;
}

#define MODE                                  \
	int mode = 0;                         \
	if (flags & (O_CREAT | O_TMPFILE)) {  \
		va_list l;                    \
		va_start(l, flags);           \
		mode = va_arg(l, int);        \
		va_end(l);                    \
	}

int open(const char *path, int flags, ...)
{
	MODE return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
	MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode);
}
int openat(int dir, const char *path, int flags, ...)
{
	MODE return do_open(dir, path, flags, mode);
}
int openat64(int dir, const char *path, int flags, ...)
{
	MODE return do_open(dir, path, flags | O_LARGEFILE, mode);
}

/* appears in panic messages, whose length would differ from run to run */
pid_t gettid(void)
{
	return 1;
}

static uint32_t of(int fd)
{
	return S && fd > 2 && fd < 1024 ? file_of[fd] : 0;
}

static int bend_read(int fd, size_t *n)
{
	if (of(fd)) {
		struct op o = next(S->read, &S->n_read, 'r', of(fd));
		if (o.kind == ERROR) {
			errno = o.value;
			return -1;
		}
		if (o.kind == SHORT && *n > o.value)
			*n = o.value ? o.value : 1;
	}
	return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
	if (bend_read(fd, &n))
		return -1;
	return raw(SYS_read, fd, (long)b, n, 0);
}
ssize_t pread(int fd, void *b, size_t n, off_t at)
{
	if (bend_read(fd, &n))
		return -1;
	return raw(SYS_pread64, fd, (long)b, n, at);
}
ssize_t pread64(int fd, void *b, size_t n, off_t at)
{
	return pread(fd, b, n, at);
}
ssize_t readv(int fd, const struct iovec *v, int k)
{
	if (of(fd) && k > 0)
		return read(fd, v[0].iov_base, v[0].iov_len);
	return raw(SYS_readv, fd, (long)v, k, 0);
}

ssize_t write(int fd, const void *b, size_t n)
{
	if (S && (fd == 1 || fd == 2)) {
		struct op o = next(S->write, &S->n_write, 'w', fd);
		if (o.kind == ERROR) {
			errno = o.value;
			return -1;
		}
		if (o.kind == SHORT && n > o.value)
			n = o.value ? o.value : 1;
	}
	return raw(SYS_write, fd, (long)b, n, 0);
}
ssize_t writev(int fd, const struct iovec *v, int k)
{
	if (S && (fd == 1 || fd == 2)) {
		for (int i = 0; i < k; i++)
			if (v[i].iov_len)
				return write(fd, v[i].iov_base, v[i].iov_len);
		return 0;
	}
	return raw(SYS_writev, fd, (long)v, k, 0);
}
