// Store traces: records, in program order, every store of the library into the
// database files (mapped stores, pwrite, size changes, creation, removal), and
// file images that such traces are applied to.
#pragma once
#include "rt.h"
#include "world.h"
namespace mc {
struct Ev {
    char kind; // 'w' store, 't' size, 'c' create, 'u' unlink, 'r' rename (off = target file)
    int file;
    uint64_t off;
    std::string data;
};
struct Recorder : Rt {
    std::vector<Ev> ev;
    uintptr_t pa = 0; // pending store
    size_t pn = 0;
    std::function<void()> on_event; // called before each event takes effect
    uint64_t seen = 0;
    void flush();
    void write(uintptr_t a, size_t n) override;
    void file_write(int f, uint64_t off, size_t n, bool done) override;
    void file_size(int f, uint64_t n, bool done) override;
    void file_create(int f, bool trunc, bool done) override;
    void file_unlink(int f, bool done) override;
    void file_rename(int a, int b, bool done) override;
    bool sleep_us(uint64_t) override { return true; }
    void before()
    {
        flush();
        if (on_event)
            on_event();
        seen++;
    }
};
typedef std::map<std::string, std::string> Image; // file name (without directory) -> contents
std::string base_name(const std::string& path);
Image load_image(const std::string& dir);
void store_image(const Image& im, const std::string& dir);
void apply_ev(Image& im, const Ev& e);
uint64_t image_hash(const Image& im);
std::string ev_str(const Ev& e);
// names of header fields, for messages
std::string header_field(uint64_t off);
}
