// Instrumentation runtime. The library is compiled with clang's
// -fsanitize=thread instrumentation and linked with the callbacks in rt.cpp
// instead of the ThreadSanitizer runtime: every load and store of the library
// that touches a shared file mapping, every atomic operation and every file
// system call is reported, in program order, to the engine that is running.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace mc {
enum { RT_PIECE = 8 }; // block copies are reported in pieces of this many bytes

struct Region {
    uintptr_t a, b;
    int file; // index into rt_files()
    uint64_t off;
};
struct Rt {
    virtual ~Rt() {}
    // before the access; address lies in a shared mapping
    virtual void read(uintptr_t, size_t) {}
    virtual void write(uintptr_t, size_t) {}
    // any atomic operation (shared or not); k: 'l' load, 's' store, 'r' read-modify-write, 'f' fence
    virtual void atomic(char, uintptr_t, size_t, int) {}
    // file operations; called before (done=false) and after (done=true)
    virtual void file_write(int /*file*/, uint64_t /*off*/, size_t /*n*/, bool /*done*/) {}
    virtual void file_read(int, uint64_t, size_t) {}
    virtual void file_size(int, uint64_t /*new size*/, bool /*done*/) {}
    virtual void file_create(int, bool /*trunc*/, bool /*done*/) {}
    virtual void file_unlink(int, bool /*done*/) {}
    virtual void file_rename(int, int, bool /*done*/) {}
    virtual bool split_reads() { return false; } // report preads in pieces, each just before it is done
    virtual bool sleep_us(uint64_t) { return false; } // true: do not really sleep
    virtual int fault(const char* /*call*/, const char* /*path*/) { return 0; } // errno to fail with
};
extern Rt* rt;                        // engine receiving the events (nullptr: none)
const Region* rt_region(uintptr_t a); // mapping that contains a
int rt_file(const std::string& path); // index of a path
const std::string& rt_path(int file);
const std::vector<Region>& rt_regions();
void rt_forget_files();
bool rt_inside(bool in); // sets, returns the previous value
void rt_leave(); // after an exception or a jump out of a handler
extern bool rt_dead; // a fault was injected that ends the run (engines use it)
}
