#include "fio.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace mc {
Fio fio;
static bool fail(const char* call)
{
    if (!fio.armed)
        return false;
    fio.n++;
    bool f = fio.mode == FIO_ON ? fio.n >= fio.k : fio.mode != FIO_COUNT && fio.n == fio.k;
    if (!f)
        return false;
    if (fio.mode == FIO_KILL)
        _exit(77);
    if (!fio.fired++)
        fio.call = call;
    return true;
}
}
using mc::fail;
using mc::fio;
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__)
#define WRAP2(r, n, ...) \
    r __real_##n(__VA_ARGS__); \
    r __wrap_##n(__VA_ARGS__)
extern "C" {
REAL(int, open, const char*, int, ...);
int __wrap_open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (fail("open")) {
        errno = fl & O_CREAT ? ENOSPC : EMFILE;
        return -1;
    }
    return __real_open(p, fl, mode);
}
int __wrap_open64(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return __wrap_open(p, fl, mode);
}
#define FAIL(name, err, ret) \
    if (fail(name)) { \
        errno = err; \
        return ret; \
    }
REAL(int, ftruncate, int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
    FAIL("ftruncate", ENOSPC, -1)
    return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
REAL(int, fallocate, int, int, off_t, off_t);
int __wrap_fallocate(int fd, int m, off_t o, off_t n)
{
    FAIL("fallocate", ENOSPC, -1)
    struct stat st; // a sparse extension has the same contents and costs no memory
    if (fstat(fd, &st) == 0 && o + n > st.st_size)
        return __real_ftruncate(fd, o + n);
    return 0;
}
int __wrap_fallocate64(int fd, int m, off_t o, off_t n) { return __wrap_fallocate(fd, m, o, n); }
int __wrap_posix_fallocate(int fd, off_t o, off_t n)
{
    if (fail("posix_fallocate"))
        return ENOSPC;
    struct stat st;
    if (fstat(fd, &st) == 0 && o + n > st.st_size)
        return __real_ftruncate(fd, o + n) ? errno : 0;
    return 0;
}
int __wrap_posix_fallocate64(int fd, off_t o, off_t n) { return __wrap_posix_fallocate(fd, o, n); }
REAL(void*, mmap, void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
    FAIL("mmap", ENOMEM, MAP_FAILED)
    return __real_mmap(a, n, p, f, fd, o);
}
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (fio.writes)
        FAIL("pwrite", ENOSPC, -1)
    return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
REAL(ssize_t, pread, int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    if (fio.reads)
        FAIL("pread", EIO, -1)
    return __real_pread(fd, b, n, o);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
REAL(ssize_t, write, int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    if (fio.stdio)
        FAIL("write", ENOSPC, -1)
    return __real_write(fd, b, n);
}
REAL(ssize_t, read, int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (fio.stdio)
        FAIL("read", EIO, -1)
    return __real_read(fd, b, n);
}
REAL(FILE*, fopen, const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m)
{
    if (fio.stdio)
        FAIL("fopen", m[0] == 'r' ? EMFILE : ENOSPC, nullptr)
    return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
REAL(size_t, fread, void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f)
{
    if (fio.stdio && fail("fread")) {
        errno = EIO;
        f->_flags |= 0x20; // what ferror() tests
        return 0;
    }
    return __real_fread(b, s, n, f);
}
REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    if (fio.stdio && fail("fwrite")) {
        errno = ENOSPC;
        f->_flags |= 0x20;
        if (n > 1 || s > 1) { // a part may have been written
            size_t half = s * n / 2;
            __real_fwrite(b, 1, half, f);
            return half / s;
        }
        return 0;
    }
    return __real_fwrite(b, s, n, f);
}
REAL(int, fclose, FILE*);
int __wrap_fclose(FILE* f)
{
    if (fio.stdio && __fwritable(f) && fail("fclose")) { // what is still buffered is lost
        __fpurge(f);
        __real_fclose(f);
        errno = ENOSPC;
        return EOF;
    }
    return __real_fclose(f);
}
REAL(int, rename, const char*, const char*);
int __wrap_rename(const char* a, const char* b)
{
    FAIL("rename", ENOSPC, -1)
    return __real_rename(a, b);
}
}
