// System calls of the code under test go through these functions (linked with --wrap). They can fail or be cut short on
// demand, and they can take a copy of a file after every change to it.
#pragma once
#include "common.h"
#include <mutex>
#include <set>
#include <map>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <sys/uio.h>

namespace tv {
enum FaultKind { F_READ = 1, F_WRITE = 2, F_TRUNC = 4, F_OPEN = 8, F_CLOSE = 16, F_SEEK = 32 };
struct FaultState {
	std::recursive_mutex m;
	std::string dir; std::map<int, std::string> fds; // descriptors of files below dir
	bool armed = false; unsigned kinds = 0; long countdown = 0; int err = 0; bool persistent = false; bool shorten = false; Rng rng{1};
	unsigned fired = 0; unsigned long calls = 0, shortened = 0;
	void (*after_change)(const std::string & path) = 0;
	bool hit(unsigned kind, int fd) {
		if (!armed || !(kinds & kind) || (fd >= 0 && !fds.count(fd))) return false;
		++calls; if (persistent && fired) { ++fired; return true; }
		if (fired || err == 0) return false;
		if (countdown-- > 0) return false;
		++fired; return true;
	}
	size_t cut(unsigned kind, int fd, size_t n) {
		if (!armed || !shorten || !(kinds & kind) || n < 2 || !fds.count(fd) || rng.below(3)) return n;
		++shortened; return 1 + rng.below(n - 1);
	}
	void changed(int fd) { if (after_change) { auto i = fds.find(fd); if (i != fds.end()) after_change(i->second); } }
	void reset() { std::lock_guard<std::recursive_mutex> l(m); armed = false; kinds = 0; countdown = 0; err = 0; persistent = shorten = false; fired = 0; calls = shortened = 0; after_change = 0; }
};
inline FaultState & faults() { static FaultState * f = new FaultState; return *f; }
}
#ifdef TV_DEFINE_WRAPS
using tv::faults;
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t);
int __real_unlink(const char *); int __real_rename(const char *, const char *); int __real_fsync(int); int __real_close(int); off_t __real_lseek(int, off_t, int); off_t __real_lseek64(int, off_t, int);
#define TV_LOCK std::lock_guard<std::recursive_mutex> tv_lock(faults().m)
ssize_t __wrap_read(int fd, void * p, size_t n) { TV_LOCK; if (faults().hit(tv::F_READ, fd)) { errno = faults().err; return -1; } return __real_read(fd, p, faults().cut(tv::F_READ, fd, n)); }
ssize_t __wrap_write(int fd, const void * p, size_t n) { TV_LOCK; if (faults().hit(tv::F_WRITE, fd)) { errno = faults().err; return -1; } ssize_t r = __real_write(fd, p, faults().cut(tv::F_WRITE, fd, n)); faults().changed(fd); return r; }
ssize_t __wrap_pread(int fd, void * p, size_t n, off_t o) { TV_LOCK; if (faults().hit(tv::F_READ, fd)) { errno = faults().err; return -1; } return __real_pread(fd, p, faults().cut(tv::F_READ, fd, n), o); }
ssize_t __wrap_pwrite(int fd, const void * p, size_t n, off_t o) { TV_LOCK; if (faults().hit(tv::F_WRITE, fd)) { errno = faults().err; return -1; } ssize_t r = __real_pwrite(fd, p, faults().cut(tv::F_WRITE, fd, n), o); faults().changed(fd); return r; }
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec * v, int n) { // (used by std::fstream)
	TV_LOCK; if (faults().hit(tv::F_WRITE, fd)) { errno = faults().err; return -1; }
	ssize_t r; size_t total = 0; for (int i = 0; i < n; ++i) total += v[i].iov_len; size_t k = faults().cut(tv::F_WRITE, fd, total);
	if (k < total && n && v[0].iov_len) r = __real_write(fd, v[0].iov_base, std::min(k, v[0].iov_len)); else r = __real_writev(fd, v, n);
	faults().changed(fd); return r;
}
static int tv_open(const char * path, int flags, mode_t mode) {
	TV_LOCK; bool mine = !faults().dir.empty() && std::string(path).compare(0, faults().dir.size(), faults().dir) == 0;
	if (mine && faults().hit(tv::F_OPEN, -1)) { errno = faults().err; return -1; }
	int fd = __real_open64(path, flags, mode); if (mine && fd >= 0) { faults().fds[fd] = path; if (flags & (O_CREAT | O_TRUNC)) faults().changed(fd); } return fd;
}
FILE * __real_fopen(const char *, const char *); FILE * __real_fopen64(const char *, const char *); int __real_fclose(FILE *);
static FILE * tv_fopen(const char * path, const char * mode) {
	TV_LOCK; bool mine = !faults().dir.empty() && std::string(path).compare(0, faults().dir.size(), faults().dir) == 0;
	if (mine && faults().hit(tv::F_OPEN, -1)) { errno = faults().err; return 0; }
	FILE * f = __real_fopen64(path, mode); if (mine && f) { faults().fds[fileno(f)] = path; if (mode[0] != 'r') faults().changed(fileno(f)); } return f;
}
FILE * __wrap_fopen(const char * path, const char * mode) { return tv_fopen(path, mode); }
FILE * __wrap_fopen64(const char * path, const char * mode) { return tv_fopen(path, mode); }
int __wrap_fclose(FILE * f) { TV_LOCK; int fd = fileno(f); bool h = faults().hit(tv::F_CLOSE, fd); faults().fds.erase(fd); int r = __real_fclose(f); if (h) { errno = faults().err; return EOF; } return r; }
int __wrap_open(const char * path, int flags, ...) { mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } return tv_open(path, flags, mode); }
int __wrap_open64(const char * path, int flags, ...) { mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } return tv_open(path, flags, mode); }
int __wrap_ftruncate(int fd, off_t n) { TV_LOCK; if (faults().hit(tv::F_TRUNC, fd)) { errno = faults().err; return -1; } int r = __real_ftruncate(fd, n); faults().changed(fd); return r; }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_unlink(const char * p) { return __real_unlink(p); }
int __wrap_rename(const char * a, const char * b) { return __real_rename(a, b); }
int __wrap_fsync(int fd) { return __real_fsync(fd); }
int __wrap_close(int fd) { TV_LOCK; bool h = faults().hit(tv::F_CLOSE, fd); faults().fds.erase(fd); int r = __real_close(fd); if (h) { errno = faults().err; return -1; } return r; }
off_t __wrap_lseek(int fd, off_t o, int w) { TV_LOCK; if (faults().hit(tv::F_SEEK, fd)) { errno = faults().err; return -1; } return __real_lseek64(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
}
#endif
