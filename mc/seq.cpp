// Engine S: exhaustive breadth-first exploration of operation sequences on the
// real library. Every transition is the real library call; states are merged
// by a canonical hash of the structure the sequence leaves behind (live tree
// with exact offsets, free lists in order, header counters, reference map).
#include "themes.h"
using namespace mc;

static unsigned OBS;
static bool AUDIT, FRESH_READER, CACHE;

static void select_themes()
{
    const std::string& p = opt.prop;
    bool T = thorough();
    auto add = [&](Theme t) { themes.push_back(t); };
    if (p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05" || p == "C12" || p == "T0") {
        add(th_bin3(false, T ? 5 : 4));
        add(th_bin3(true, T ? 4 : 3));
        for (int L : { 8, 13 }) {
            add(th_tail(L, T ? 3 : 2, false));
            add(th_tail(L, T ? 3 : 2, true));
        }
        for (int n : { 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256 }) {
            add(th_fan(n, n > 40 ? 2 : T ? 4 : 2, "s", n % 2));
            if (T || n > 250 || n == 2 || n == 16)
                add(th_fan(n, n > 40 ? 2 : T ? 3 : 2, "stem-is-long", !(n % 2)));
        }
        for (int n : { 2, 9, 10, 11, 16, 17 })
            for (int first : { 0x20, 0x90 })
                for (bool down : { false, true })
                    add(th_ordered(n, first, down, T ? 3 : 2));
        add(th_bytes(T ? 4 : 3));
        add(th_values(T ? 4 : 3, false));
        add(th_values(T ? 3 : 2, true));
        add(th_long(T ? 3 : 2, false));
        add(th_long(T ? 3 : 2, true));
        add(th_limits(2));
        if (p == "C01" || p == "C12")
            add(th_lists(T ? 4 : 3));
        add(th_life(cfg_small(), T ? 5 : 3, "life", true, false, 0));
        for (auto& t : themes)
            t.reader = p != "C12" && t.name != "limits";
    }
    if (p == "C10") {
        for (const char* c : { "default", "multi", "partial", "unmapped", "memory" })
            for (int r : { 0, 1, 2 })
                add(th_mixed(c, T ? 4 : r == 2 ? 2 : 3, "G1X", r));
        for (const char* c : { "multi", "unmapped" })
            for (int v = 0; v < (T ? 60 : 24); v++)
                add(th_order(v, c, T ? 3 : 2));
        add(th_life(cfg_small(), T ? 5 : 4, "life", true, false, 0));
    }
    if (p == "C13")
        for (const char* c : { "default", "multi", "partial", "unmapped", "rsmall", "onlyidx", "onlydat", "sync" })
            for (int r : { 0, 1, 2 })
                add(th_mixed(c, T ? 4 : r == 2 ? 2 : 3, "CcQX", r));
    if (p == "C14")
        for (const char* c : { "default", "multi", "partial", "unmapped", "memory", "rsmall", "onlyidx", "onlydat", "sync", "jemalloc" })
            for (int r : { 0, 1, 2 })
                add(th_mixed(c, T ? 4 : r == 2 ? 2 : 3, "X", r));
    if (p == "C16")
        for (const char* c : { "pc4", "pc16", "pcje" })
            for (int v = 0; v < 6; v++) {
                add(th_pcache(c, v, T ? 5 : c[2] == '4' && v == 2 ? 4 : 3, false));
                add(th_pcache(c, v, T ? 4 : 3, true));
            }
    if (p == "C21")
        for (long st : { 0L, 65528L, 65531L, 65533L, 65534L, 65535L, 65536L })
            for (int v : { 0, 1, 2, 5 })
                if ((v < 5 || st == 0) && (T || st == 0 || st == 65531 || (st == 65534 && v)))
                    add(th_evict(st, T ? 4 : 3, v));
    if (p == "C21")
        for (long st : { 65533L, 80000L })
            for (int v = 3; v < 5; v++)
                if (T || st == 65533 + 14467 * (v - 3))
                    add(th_evict(st, T ? 4 : 3, v));
    if (p == "C23") {
        pool_recycle = 30; // the arenas of closed databases take up address space
        for (int r : { 0, 1 })
            add(th_keep("keep", 4, r, T ? 4 : 3));
        for (int r : { 2, 3, 4, 5 })
            add(th_keep("keep", 4, r, T ? 3 : 2));
        add(th_keep("keep1", 6, 6, T ? 5 : 4));
        for (const char* c : { "keep1", "keep2" })
            for (int b : { 2, 3, 8 })
                for (int r : { 1, 2, 5 })
                    add(th_keep(c, b, r, 2 + T));
    }
    if (p == "C22")
        for (const char* c : { "default", "multi", "partial", "unmapped", "onlyidx", "onlydat", "sync", "pc4", "jemalloc", "b4", "b48" }) {
            bool big = c[0] == 'b' || c[0] == 'j' || c[0] == 'p';
            for (int r : { 0, 1, 2 })
                if ((c[0] == 'b' || c[0] == 'j') || r < 2)
                    add(th_backup(c, (big ? r == 2 ? 1 : 2 : 3) + T, r));
        }
    OBS = 0;
    if (p == "C22")
        OBS = O_FIND | O_ITER | O_COUNT;
    if (p == "C21")
        OBS = O_FIND | O_ITER | O_COUNT;
    CACHE = p == "C16";
    if (p == "C10") {
        OBS = O_FIND | O_ITER | O_COUNT;
        AUDIT = true;
    }
    if (p == "C23") {
        OBS = O_FIND | O_ITER | O_COUNT;
        AUDIT = true;
        FRESH_READER = true;
    }
    if (p == "C13") {
        OBS = O_FIND | O_ITER | O_COUNT;
        FRESH_READER = true;
    }
    if (p == "C14") {
        OBS = O_FIND | O_PREFIX | O_LB | O_ITER | O_COUNT;
        FRESH_READER = true;
    }
    if (p == "C01")
        OBS = O_FIND | O_INDB | O_COUNT;
    if (p == "C02")
        OBS = O_PREFIX;
    if (p == "C03")
        OBS = O_LB;
    if (p == "C04")
        OBS = O_ITER | O_PITER;
    if (p == "C05")
        OBS = O_FIND | O_PREFIX | O_LB | O_INDB | O_TRAIL;
    if (p == "C12") {
        OBS = 0;
        AUDIT = true;
    }
    if (p == "T0")
        OBS = O_ALL;
}

// Every lookup through handles with the cache against a handle without it.
// The cache's content goes into the hash.
static bool cache_check(World& w, const Theme& t, uint64_t& h)
{
    Cfg c = w.cfg;
    c.ropt &= ~CONSTS::OPTION_PREFIX_CACHE;
    MBConfig mc;
    fill_config(mc, c, w.dir, CONSTS::ACCESS_MODE_READER, 0x706c);
    DB plain(mc);
    if (!plain.is_open())
        return w.fail("open-reader", std::string("reader without cache: ") + plain.StatusStr());
    for (auto& q : t.queries) {
        std::string v0, v;
        int r0 = find(&plain, q, v0);
        for (DB* d : { w.w, w.r }) {
            int r = find(d, q, v);
            if (r != r0 || (!r && v != v0))
                return w.fail("cache-changes-result", strf("%s: Find(%s) = %s %s, without the cache %s %s", d == w.w ? "writer" : "reader", show(q).c_str(), es(r), r ? "" : show(v).c_str(), es(r0), r0 ? "" : show(v0).c_str()));
            if (r == 0)
                count(4);
            int e = 0;
            bool in = d->InDB(q.data(), (int)q.size(), e), in0 = plain.InDB(q.data(), (int)q.size(), e);
            if (in != in0 && !q.empty())
                return w.fail("cache-changes-result", strf("%s: InDB(%s) = %d, without the cache %d", d == w.w ? "writer" : "reader", show(q).c_str(), in, in0));
        }
        if (PrefixCache* pc = w.r->dict->ActivePrefixCache()) {
            for (int l = 2; l <= 4 && l <= (int)q.size(); l++) {
                PrefixCacheEntry en;
                int n = pc->GetDepth((const uint8_t*)q.data(), l, en);
                h = hmix(h, n);
                if (n) {
                    h = hmix(h, en.edge_offset * 32 + en.edge_skip);
                    h = hash_bytes(en.edge_buff, sizeof en.edge_buff, h);
                    count(5);
                }
            }
        } else
            return w.fail("harness", "the reader has no cache");
    }
    plain.Close();
    return true;
}

// ----------------------------------------------------------- exploration ----
static void run_seq(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& t = themes[ti];
    static std::string wd;
    static pid_t owner;
    if (owner != getpid()) {
        wd = worker_dir();
        owner = getpid();
    }
    std::string dir = wd + "/d";
    mkdir(dir.c_str(), 0755);
    MBData reused; // programs use one result object for many lookups
    struct Reuse {
        Reuse(MBData* d) { g_reuse = d; }
        ~Reuse() { g_reuse = nullptr; }
    } reuse(&reused);
    {
        World w;
        bool ok = w.open(dir, t.cfg, t.reader);
        for (size_t i = 0; ok && i < t.init.size(); i++)
            ok = w.apply(t.init[i]);
        for (size_t i = 0; ok && i < seq.size(); i++) {
            ok = w.apply(t.ops[seq[i]]);
            count(1);
        }
        if (w.nevicted)
            count(6);
        for (size_t i = 0; ok && i < t.post.size(); i++)
            ok = w.apply(t.post[i]);
        if (!ok && opt.prop != "C01" && opt.prop != "C05" && opt.prop != "T0") {
            // wrong return code: C01's business (C05's at the limits); not explored further here
            if (w.kind.compare(0, 3, "add") == 0 || w.kind.compare(0, 6, "remove") == 0 || w.kind == "limit-accepted") {
                w.kind.clear();
                out.aux = 1;
                count(3);
            }
        }
        if (ok && OBS) {
            ok = w.check(w.w, "writer", OBS, t.queries, t.prefixes);
            if (ok && w.r)
                ok = w.check(w.r, "reader", OBS, t.queries, t.prefixes);
        }
        if (ok && FRESH_READER && !(t.cfg.wopt & CONSTS::MEMORY_ONLY_MODE))
            ok = w.fresh_reader(true);
        if (ok) {
            Audit a;
            ok = w.audit(a, AUDIT) || !AUDIT;
            uint64_t h = hmix(a.hash, ti);
            if (CACHE) {
                h = hmix(h, w.cfg.wopt);
                cache_check(w, t, h);
                IndexHeader* hd = w.w->dict->GetHeaderPtr();
                for (auto& o : a.dat) // nothing may be stored where the cache is
                    if (w.kind.empty() && o.off < hd->pfxcache_offset + hd->pfxcache_size && o.off + o.size > hd->pfxcache_offset)
                        w.fail("cache-overlaps-value", strf("a value of %d bytes at %zu lies in the cache at %zu..%zu", o.size, o.off, (size_t)hd->pfxcache_offset, (size_t)(hd->pfxcache_offset + hd->pfxcache_size)));
            }
            for (auto& e : w.m)
                h = hash_bytes(e.first.data(), e.first.size(), hash_bytes(e.second.data(), e.second.size(), h));
            for (auto& c : w.copies)
                for (auto& e : c.second)
                    h = hash_bytes(e.first.data(), e.first.size(), hash_bytes(e.second.data(), e.second.size(), h));
            if (opt.prop == "C21")
                for (auto& e : w.m)
                    h = hmix(h, w.updates - w.stamp[e.first]);
            out.hash = h;
            note_distinct(h);
        }
        if (!w.kind.empty()) {
            out.fail(w.kind, "[" + t.name + "] after " + desc_seq(ti, seq) + ": " + w.err);
            out.aux = 1;
        }
    }
    mabain::DB::ClearResources(dir);
    clear_dir(dir);
    count(0);
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    mabain::DB::SetLogLevel(0);
    select_themes();
    report_extra = [](Report& r) {
        if (CACHE) {
            r.num["lookups_that_hit"] = shared->ctr[4];
            r.num["cached_prefixes"] = shared->ctr[5];
        }
        if (opt.prop == "C21")
            r.num["sequences_that_evicted"] = shared->ctr[6];
    };
    if (themes.empty()) {
        fprintf(stderr, "no themes for %s\n", opt.prop.c_str());
        return 3;
    }
    return explore(run_seq);
}
