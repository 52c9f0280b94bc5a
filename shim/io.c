/* Preloaded: numbers every open, read, write and close of the program's files,
 * logs them, and makes one of them fail.  stdio is covered whichever of its
 * functions is used, as the streams are cookie streams over these calls.
 *
 *  IOF_LOG     file to append the log to (opened by number, not counted)
 *  IOF_AT      number of the operation to fail (from 0), or unset
 *  IOF_ERRNO   errno to fail with
 *  IOF_STICKY  if set, everything of the same kind on the same file fails after that
 *  IOF_SHORT   if set, reads return at most that many bytes
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXS 256

static int logfd = -2;
static long at = -1, seq;
static int err, sticky, sht;
static char sname[1024];	/* name and kind that keep failing */
static char skind;

static struct st { FILE *f; int fd; char name[1024]; int out; } tab[MAXS];

static void init(void) {
	if (logfd != -2)
		return;
	char *s = getenv("IOF_LOG");
	logfd = s ? (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600) : -1;
	if (logfd >= 0) {
		int n = (int)syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 200);
		if (n >= 0) {
			syscall(SYS_close, logfd);
			logfd = n;
		}
	}
	s = getenv("IOF_AT");
	at = s ? atol(s) : -1;
	s = getenv("IOF_ERRNO");
	err = s ? atoi(s) : EIO;
	sticky = getenv("IOF_STICKY") != NULL;
	s = getenv("IOF_SHORT");
	sht = s ? atoi(s) : 0;
}

/* Count an operation; nonzero if it is to fail. */
static int op(char kind, const char *name, long n) {
	init();
	int fail = seq == at;
	if (sticky && sname[0] && kind == skind && !strcmp(name, sname))
		fail = 1;
	if (fail && seq == at) {
		skind = kind;
		strncpy(sname, name, sizeof(sname) - 1);
	}
	if (logfd >= 0) {
		char b[1400];
		int l = snprintf(b, sizeof(b), "%ld %c %ld %d %s\n", seq, kind, n, fail, name);
		if (syscall(SYS_write, logfd, b, l) < 0)
			;
	}
	seq++;
	if (fail)
		errno = err;
	return fail;
}

static ssize_t c_read(void *c, char *buf, size_t n) {
	struct st *s = c;
	if (op('r', s->name, (long)n))
		return -1;
	if (sht && n > (size_t)sht)
		n = sht;
	return syscall(SYS_read, s->fd, buf, n);
}

static ssize_t c_write(void *c, const char *buf, size_t n) {
	struct st *s = c;
	if (op('w', s->name, (long)n))
		return 0;	/* how a cookie says it failed */
	size_t done = 0;
	while (done < n) {
		ssize_t k = syscall(SYS_write, s->fd, buf + done, n - done);
		if (k <= 0)
			return done;
		done += k;
	}
	return n;
}

static int c_seek(void *c, off64_t *pos, int whence) {
	struct st *s = c;
	off64_t r = lseek64(s->fd, *pos, whence);
	if (r < 0)
		return -1;
	*pos = r;
	return 0;
}

static int c_close(void *c) {
	struct st *s = c;
	int fail = op(s->out ? 'c' : 'C', s->name, 0);
	syscall(SYS_close, s->fd);
	s->f = NULL;
	s->fd = -1;
	if (fail) {
		errno = err;
		return -1;
	}
	return 0;
}

static FILE *do_open(const char *name, const char *mode) {
	int out = strpbrk(mode, "wa+") != NULL;
	int fl = strchr(mode, '+') ? O_RDWR : out ? O_WRONLY : O_RDONLY;
	if (mode[0] == 'w')
		fl |= O_CREAT | O_TRUNC;
	if (mode[0] == 'a')
		fl |= O_CREAT | O_APPEND;
	if (strchr(mode, 'x'))
		fl |= O_EXCL;
	if (op(out ? 'O' : 'o', name, 0))
		return NULL;
	int i;
	for (i = 0; i < MAXS && tab[i].f; i++)
		;
	if (i == MAXS) {
		errno = EMFILE;
		return NULL;
	}
	int fd = (int)syscall(SYS_openat, AT_FDCWD, name, fl, 0666);
	if (fd < 0)
		return NULL;
	tab[i].fd = fd;
	tab[i].out = out;
	strncpy(tab[i].name, name, sizeof(tab[i].name) - 1);
	cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
	tab[i].f = fopencookie(&tab[i], mode, io);
	return tab[i].f;
}

FILE *fopen(const char *name, const char *mode) { return do_open(name, mode); }
FILE *fopen64(const char *name, const char *mode) { return do_open(name, mode); }

int fileno(FILE *f) {
	static int (*real)(FILE *);
	for (int i = 0; i < MAXS; i++)
		if (tab[i].f == f)
			return tab[i].fd;
	if (!real)
		real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
	return real(f);
}

/* Calls made without stdio */

static const char *fdname[1024];

static int do_openat(int dir, const char *name, int fl, int mode) {
	if (op((fl & O_ACCMODE) == O_RDONLY ? 'o' : 'O', name, 0))
		return -1;
	int fd = (int)syscall(SYS_openat, dir, name, fl, mode);
	if (fd >= 0 && fd < 1024)
		fdname[fd] = strdup(name);
	return fd;
}

#define VA_MODE(fl) int mode = 0; if ((fl) & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *name, int fl, ...) { VA_MODE(fl) return do_openat(AT_FDCWD, name, fl, mode); }
int open64(const char *name, int fl, ...) { VA_MODE(fl) return do_openat(AT_FDCWD, name, fl, mode); }
int openat(int d, const char *name, int fl, ...) { VA_MODE(fl) return do_openat(d, name, fl, mode); }
int creat(const char *name, mode_t mode) { return do_openat(AT_FDCWD, name, O_CREAT|O_WRONLY|O_TRUNC, mode); }

ssize_t read(int fd, void *buf, size_t n) {
	if (fd >= 0 && fd < 1024 && fdname[fd]) {
		if (op('r', fdname[fd], (long)n))
			return -1;
		if (sht && n > (size_t)sht)
			n = sht;
	}
	return syscall(SYS_read, fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
	if (fd >= 0 && fd < 1024 && fdname[fd]) {
		if (op('w', fdname[fd], (long)n))
			return -1;
	}
	return syscall(SYS_write, fd, buf, n);
}
