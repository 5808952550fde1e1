#include "trace.h"
#include <dirent.h>
namespace mc {
void Recorder::flush()
{
    if (!pn)
        return;
    const Region* r = rt_region(pa);
    if (r)
        ev.push_back({ 'w', r->file, r->off + (pa - r->a), std::string((const char*)pa, pn) });
    pn = 0;
}
void Recorder::write(uintptr_t a, size_t n)
{
    before();
    pa = a;
    pn = n;
}
void Recorder::file_write(int f, uint64_t off, size_t n, bool done)
{
    if (!done) {
        before();
        return;
    }
    std::string d(n, 0);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, rt_path(f).c_str(), O_RDONLY, 0);
    if (fd >= 0) {
        if (syscall(SYS_pread64, fd, &d[0], n, off) != (long)n)
            d.clear();
        syscall(SYS_close, fd);
    }
    ev.push_back({ 'w', f, off, d });
}
void Recorder::file_size(int f, uint64_t n, bool done)
{
    if (!done)
        before();
    else
        ev.push_back({ 't', f, n, "" });
}
void Recorder::file_create(int f, bool, bool done)
{
    if (!done)
        before();
    else
        ev.push_back({ 'c', f, 0, "" });
}
void Recorder::file_unlink(int f, bool done)
{
    if (!done)
        before();
    else
        ev.push_back({ 'u', f, 0, "" });
}
void Recorder::file_rename(int a, int b, bool done)
{
    if (!done)
        before();
    else
        ev.push_back({ 'r', a, (uint64_t)b, "" });
}
std::string base_name(const std::string& p)
{
    size_t i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}
Image load_image(const std::string& dir)
{
    Image im;
    DIR* d = opendir(dir.c_str());
    if (!d)
        return im;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat st;
        if (n[0] == '.' || stat((dir + "/" + n).c_str(), &st) || !S_ISREG(st.st_mode))
            continue;
        im[n] = read_file(dir + "/" + n);
    }
    closedir(d);
    return im;
}
void store_image(const Image& im, const std::string& dir)
{
    clear_dir(dir);
    for (auto& f : im)
        write_file(dir + "/" + f.first, f.second);
}
void apply_ev(Image& im, const Ev& e)
{
    std::string n = base_name(rt_path(e.file));
    switch (e.kind) {
    case 'w': {
        auto it = im.find(n);
        if (it == im.end())
            return;
        if (it->second.size() < e.off + e.data.size())
            it->second.resize(e.off + e.data.size());
        memcpy(&it->second[e.off], e.data.data(), e.data.size());
        break;
    }
    case 't':
        im[n].resize(e.off);
        break;
    case 'c':
        im[n] = "";
        break;
    case 'u':
        im.erase(n);
        break;
    case 'r':
        im[base_name(rt_path((int)e.off))] = im[n];
        im.erase(n);
        break;
    }
}
uint64_t image_hash(const Image& im)
{
    uint64_t h = 7;
    for (auto& f : im) {
        h = hash_bytes(f.first.data(), f.first.size(), h);
        // word-wise: hash_bytes is bytewise and these are whole files
        const uint64_t* p = (const uint64_t*)f.second.data();
        size_t n = f.second.size() / 8;
        for (size_t i = 0; i < n; i++)
            if (p[i])
                h = hmix(h ^ i, p[i]);
        h = hmix(h, f.second.size());
    }
    return h;
}
std::string header_field(uint64_t o)
{
#define F(x) \
    if (o >= offsetof(IndexHeader, x) && o < offsetof(IndexHeader, x) + sizeof(((IndexHeader*)0)->x)) \
        return #x;
    F(count) F(m_data_offset) F(m_index_offset) F(pending_data_buff_size) F(pending_index_buff_size) F(n_states) F(n_edges) F(edge_str_size) F(num_writer) F(num_reader) F(num_update) F(eviction_bucket_index) F(excep_updating_status) F(excep_buff) F(excep_offset) F(excep_lf_offset) F(rc_m_index_off_pre) F(rc_m_data_off_pre) F(rc_root_offset) F(rc_count) F(reader_epoch_slot) F(queue_index) F(writer_index) F(rc_flag) F(rebuild_active)
    if (o >= offsetof(IndexHeader, lock_free) && o < offsetof(IndexHeader, lock_free) + sizeof(LockFreeShmData))
        return o - offsetof(IndexHeader, lock_free) == 0 ? "lock_free.counter" : o - offsetof(IndexHeader, lock_free) == 8 ? "lock_free.offset" : "lock_free.offset_cache";
#undef F
    return strf("header+%llu", (unsigned long long)o);
}
std::string ev_str(const Ev& e)
{
    std::string n = base_name(rt_path(e.file));
    if (e.kind == 'w') {
        std::string w = n == "_mabain_h" ? header_field(e.off) : n.substr(8) + strf("+%llu", (unsigned long long)e.off);
        return w + "=" + hex(e.data.substr(0, 13));
    }
    return strf("%c(%s,%llu)", e.kind, n.c_str(), (unsigned long long)e.off);
}
}
