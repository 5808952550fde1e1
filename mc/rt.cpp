#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

namespace mc {
Rt* rt;
bool rt_dead;
static std::vector<Region> regs;
static uintptr_t lo = ~0ul, hi;
static std::vector<std::string> files;
static std::map<std::string, int> fidx;

int rt_file(const std::string& p)
{
    auto it = fidx.find(p);
    if (it != fidx.end())
        return it->second;
    files.push_back(p);
    return fidx[p] = (int)files.size() - 1;
}
const std::string& rt_path(int f) { return files[f]; }
const std::vector<Region>& rt_regions() { return regs; }
void rt_forget_files()
{
    // only names without a live mapping may be dropped; indices must stay stable while mapped
    if (regs.empty()) {
        files.clear();
        fidx.clear();
    }
}
static void bounds()
{
    lo = ~0ul;
    hi = 0;
    for (auto& r : regs) {
        if (r.a < lo)
            lo = r.a;
        if (r.b > hi)
            hi = r.b;
    }
}
const Region* rt_region(uintptr_t a)
{
    if (a < lo || a >= hi)
        return nullptr;
    for (auto& r : regs)
        if (a >= r.a && a < r.b)
            return &r;
    return nullptr;
}
static bool scratch_path(const char* p) { return p && strstr(p, "/mcv."); }
static int fd_file(int fd)
{
    char l[64], p[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0)
        return -1;
    p[n] = 0;
    if (!scratch_path(p))
        return -1;
    return rt_file(p);
}
static inline bool sh(const volatile void* p) { return (uintptr_t)p >= lo && (uintptr_t)p < hi && rt_region((uintptr_t)p); }
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}
static thread_local bool inside; // the handler's own accesses are not reported
void rt_leave() { inside = false; }
bool rt_inside(bool in)
{
    bool b = inside;
    inside = in;
    return b;
}
static inline void R(const volatile void* p, size_t n)
{
    if (rt && !inside && sh(p)) {
        inside = true;
        rt->read((uintptr_t)p, n);
        inside = false;
    }
}
static inline void W(const volatile void* p, size_t n)
{
    if (rt && !inside && sh(p)) {
        inside = true;
        rt->write((uintptr_t)p, n);
        inside = false;
    }
}
// A block copy is reported the way it is compiled: in power-of-two pieces.
static inline size_t piece(size_t n)
{
    return n >= RT_PIECE ? RT_PIECE : n >= 4 ? 4 : n >= 2 ? 2 : n;
}
static void copy(uint8_t* d, const uint8_t* s, size_t n)
{
    bool ds = rt && !inside && sh(d), ss = rt && !inside && sh(s);
    if (!ds && !ss) {
        __real_memmove(d, s, n);
        return;
    }
    for (size_t i = 0; i < n;) {
        size_t c = piece(n - i);
        if (ss)
            R(s + i, c);
        uint8_t t[RT_PIECE];
        __real_memcpy(t, s + i, c);
        if (ds)
            W(d + i, c);
        __real_memcpy(d + i, t, c);
        i += c;
    }
}
}
using namespace mc;

#define ACC(n)                                                             \
    void __tsan_read##n(void* p) { R(p, n); }                              \
    void __tsan_write##n(void* p) { W(p, n); }                             \
    void __tsan_unaligned_read##n(void* p) { R(p, n); }                    \
    void __tsan_unaligned_write##n(void* p) { W(p, n); }                   \
    void __tsan_unaligned_read_write##n(void* p) { R(p, n); W(p, n); }     \
    void __tsan_read_write##n(void* p) { R(p, n); W(p, n); }               \
    void __tsan_volatile_read##n(void* p) { R(p, n); }                     \
    void __tsan_volatile_write##n(void* p) { W(p, n); }
extern "C" {
void __tsan_init() { }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_vptr_read(void**) { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_read_range(void* p, size_t n) { R(p, n); }
void __tsan_write_range(void* p, size_t n) { W(p, n); }
void* rt_c_memcpy(void* d, const void* s, size_t n)
{
    copy((uint8_t*)d, (const uint8_t*)s, n);
    return d;
}
void* rt_c_memmove(void* d, const void* s, size_t n)
{
    if (rt && !inside && (sh(d) || sh(s)) && (uint8_t*)d > (uint8_t*)s && (uint8_t*)d < (uint8_t*)s + n) {
        // overlapping, backwards
        for (size_t e = n; e > 0;) {
            size_t c = e % RT_PIECE ? piece(e % RT_PIECE) : RT_PIECE;
            e -= c;
            uint8_t t[RT_PIECE];
            R((uint8_t*)s + e, c);
            __real_memcpy(t, (uint8_t*)s + e, c);
            W((uint8_t*)d + e, c);
            __real_memcpy((uint8_t*)d + e, t, c);
        }
        return d;
    }
    copy((uint8_t*)d, (const uint8_t*)s, n);
    return d;
}
void* rt_c_memset(void* d, int v, size_t n)
{
    if (rt && !inside && sh(d)) {
        // large fills are reported in larger pieces
        for (size_t i = 0; i < n;) {
            size_t c = n > 512 ? std::min<size_t>(64, n - i) : piece(n - i);
            W((uint8_t*)d + i, c);
            __real_memset((uint8_t*)d + i, v, c);
            i += c;
        }
        return d;
    }
    return __real_memset(d, v, n);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return rt_c_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return rt_c_memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { return rt_c_memset(d, v, n); }
#define ATOM(bits, T)                                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo)                                                          \
    {                                                                                                                  \
        if (rt)                                                                                                        \
            rt->atomic('l', (uintptr_t)p, sizeof(T), mo);                                                              \
        R((const void*)p, sizeof(T));                                                                                  \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)                                                       \
    {                                                                                                                  \
        if (rt)                                                                                                        \
            rt->atomic('s', (uintptr_t)p, sizeof(T), mo);                                                              \
        W((void*)p, sizeof(T));                                                                                        \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    RMW(bits, T, exchange, __atomic_exchange_n)                                                                        \
    RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                        \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                        \
    RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                        \
    RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                          \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                        \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int)                           \
    {                                                                                                                  \
        if (rt)                                                                                                        \
            rt->atomic('r', (uintptr_t)p, sizeof(T), mo);                                                              \
        R((void*)p, sizeof(T));                                                                                        \
        W((void*)p, sizeof(T));                                                                                        \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f)                           \
    {                                                                                                                  \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f);                                          \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f)                               \
    {                                                                                                                  \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f);                                                \
        return e;                                                                                                      \
    }
#define RMW(bits, T, name, fn)                                        \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo)        \
    {                                                                 \
        if (rt)                                                       \
            rt->atomic('r', (uintptr_t)p, sizeof(T), mo);             \
        R((void*)p, sizeof(T));                                       \
        W((void*)p, sizeof(T));                                       \
        return fn(p, v, __ATOMIC_SEQ_CST);                            \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (rt)
        rt->atomic('f', 0, 0, mo);
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) { }

// ------------------------------------------------------------- libc calls ---
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, memcmp, const void*, const void*, size_t);
int rt_c_memcmp(const void* a, const void* b, size_t n)
{
    if (rt && (sh(a) || sh(b))) {
        for (size_t i = 0; i < n; i += RT_PIECE) {
            size_t c = n - i < RT_PIECE ? n - i : RT_PIECE;
            R((const uint8_t*)a + i, c);
            R((const uint8_t*)b + i, c);
            int r = __real_memcmp((const uint8_t*)a + i, (const uint8_t*)b + i, c);
            if (r)
                return r;
        }
        return 0;
    }
    return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n) { return rt_c_memcmp(a, b, n); }

REAL(void*, mmap, void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off)
{
    int e;
    if (rt && (e = rt->fault("mmap", nullptr))) {
        errno = e;
        return MAP_FAILED;
    }
    void* p = __real_mmap(a, n, prot, fl, fd, off);
    if (p != MAP_FAILED && fd >= 0 && (fl & MAP_SHARED)) {
        int f = fd_file(fd);
        if (f >= 0) {
            regs.push_back({ (uintptr_t)p, (uintptr_t)p + n, f, (uint64_t)off });
            bounds();
        }
    }
    return p;
}
REAL(int, munmap, void*, size_t);
int __wrap_munmap(void* p, size_t n)
{
    for (size_t i = 0; i < regs.size(); i++)
        if (regs[i].a == (uintptr_t)p) {
            regs.erase(regs.begin() + i);
            bounds();
            break;
        }
    return __real_munmap(p, n);
}
REAL(int, open, const char*, int, ...);
int __wrap_open(const char* path, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    int e;
    if (rt && (e = rt->fault("open", path))) {
        errno = e;
        return -1;
    }
    bool ev = rt && scratch_path(path) && (fl & (O_CREAT | O_TRUNC));
    bool change = ev && (access(path, F_OK) != 0 || (fl & O_TRUNC));
    int f = change ? rt_file(path) : -1;
    if (change)
        rt->file_create(f, fl & O_TRUNC, false);
    int fd = __real_open(path, fl, mode);
    if (change && fd >= 0)
        rt->file_create(f, fl & O_TRUNC, true);
    return fd;
}
int __wrap_open64(const char* path, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return __wrap_open(path, fl, mode);
}
REAL(int, ftruncate, int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
    int e;
    if (rt && (e = rt->fault("ftruncate", nullptr))) {
        errno = e;
        return -1;
    }
    int f = rt ? fd_file(fd) : -1;
    if (f >= 0)
        rt->file_size(f, n, false);
    int r = __real_ftruncate(fd, n);
    if (f >= 0 && r == 0)
        rt->file_size(f, n, true);
    return r;
}
REAL(int, fallocate, int, int, off_t, off_t);
int __wrap_fallocate(int fd, int mode, off_t o, off_t n)
{
    int e;
    if (rt && (e = rt->fault("fallocate", nullptr))) {
        errno = e;
        return -1;
    }
    int f = rt ? fd_file(fd) : -1;
    if (f >= 0)
        rt->file_size(f, o + n, false);
    // a sparse extension has the same contents and costs no memory
    struct stat st;
    int r = fstat(fd, &st);
    if (r == 0 && o + n > st.st_size)
        r = __real_ftruncate(fd, o + n);
    if (f >= 0 && r == 0)
        rt->file_size(f, o + n, true);
    return r;
}
REAL(int, posix_fallocate, int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t o, off_t n)
{
    int e;
    if (rt && (e = rt->fault("posix_fallocate", nullptr)))
        return e;
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_size >= o + n)
        return 0;
    return __wrap_ftruncate(fd, o + n) == 0 ? 0 : errno;
}
REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    int e;
    if (rt && (e = rt->fault("pwrite", nullptr))) {
        errno = e;
        return -1;
    }
    int f = rt ? fd_file(fd) : -1;
    if (f >= 0)
        rt->file_write(f, o, n, false);
    ssize_t r = __real_pwrite(fd, b, n, o);
    if (f >= 0 && r > 0)
        rt->file_write(f, o, r, true);
    return r;
}
REAL(ssize_t, pread, int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    int e;
    if (rt && (e = rt->fault("pread", nullptr))) {
        errno = e;
        return -1;
    }
    int f = rt && !inside ? fd_file(fd) : -1;
    if (f >= 0 && rt->split_reads()) {
        size_t done = 0;
        while (done < n) {
            size_t c = piece(n - done);
            inside = true;
            rt->file_read(f, o + done, c);
            inside = false;
            ssize_t r = __real_pread(fd, (char*)b + done, c, o + done);
            if (r < 0)
                return r;
            done += r;
            if (r < (ssize_t)c)
                break;
        }
        return done;
    }
    if (f >= 0)
        rt->file_read(f, o, n);
    return __real_pread(fd, b, n, o);
}
REAL(int, unlink, const char*);
int __wrap_unlink(const char* p)
{
    int f = rt && scratch_path(p) && access(p, F_OK) == 0 ? rt_file(p) : -1;
    if (f >= 0)
        rt->file_unlink(f, false);
    int r = __real_unlink(p);
    if (f >= 0 && r == 0)
        rt->file_unlink(f, true);
    return r;
}
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
REAL(int, rename, const char*, const char*);
int __wrap_rename(const char* a, const char* b)
{
    bool ev = rt && scratch_path(a);
    if (ev)
        rt->file_rename(rt_file(a), rt_file(b), false);
    int r = __real_rename(a, b);
    if (ev && r == 0)
        rt->file_rename(rt_file(a), rt_file(b), true);
    return r;
}
REAL(int, nanosleep, const struct timespec*, struct timespec*);
int rt_c_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (rt && rt->sleep_us(a->tv_sec * 1000000ull + a->tv_nsec / 1000))
        return 0;
    return __real_nanosleep(a, b);
}
REAL(int, usleep, useconds_t);
int rt_c_usleep(useconds_t n)
{
    if (rt && rt->sleep_us(n))
        return 0;
    return __real_usleep(n);
}
}
