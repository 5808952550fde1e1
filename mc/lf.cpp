// Engine L: all interleavings of a reader with a writer. The stores of the
// writer's operations are recorded from the real writer; a real reader then
// performs a lookup on a second copy of the files while this engine replays the
// stores underneath it. Before each of the reader's loads of a location the
// remaining stores change, every value the load can observe is branched on
// (depth-first, by re-execution), so every sequentially consistent
// interleaving is covered up to observational equivalence.
#include "themes.h"
#include "trace.h"
#include <setjmp.h>
using namespace mc;

enum { C_SCEN = 0, C_OPS = 1, C_PRUNED = 3, C_SCHED = 4, C_STEPS, C_ADV, C_STORES, C_REDUNDANT, C_CUT, C_TRY, C_LOADS, C_MAXP, C_FAR };

struct Prune { };
static jmp_buf stuck;

struct Tr { // the writer's trace
    std::vector<Ev> ev;
    std::vector<size_t> end;                                                  // index after the last store of operation i (end[0] = 0)
    std::vector<Model> m;                                                     // contents after i operations
    std::unordered_map<uint64_t, std::vector<uint32_t>> at;                   // 8-byte line -> stores touching it
    bool structural = false;                                                  // changes sizes or the set of files
};
static uint64_t line(int f, uint64_t off) { return ((uint64_t)f << 48) | (off >> 3); }

// The reader's files, kept by the engine.
struct Files {
    std::string dir;
    struct F {
        int fd = -1;
        uint8_t* p = nullptr;
        size_t n = 0;
    };
    std::map<std::string, F> f;
    F* get(const std::string& n)
    {
        F& x = f[n];
        if (x.fd < 0)
            x.fd = (int)syscall(SYS_openat, AT_FDCWD, (dir + "/" + n).c_str(), O_RDWR, 0);
        if (x.fd < 0)
            return nullptr;
        if (!x.p) {
            struct stat st;
            if (fstat(x.fd, &st) || !st.st_size)
                return &x;
            x.n = st.st_size;
            x.p = (uint8_t*)syscall(SYS_mmap, 0L, x.n, (long)(PROT_READ | PROT_WRITE), (long)MAP_SHARED, (long)x.fd, 0L);
            if (x.p == MAP_FAILED)
                abort();
        }
        return &x;
    }
    void drop(const std::string& n)
    {
        auto it = f.find(n);
        if (it == f.end())
            return;
        if (it->second.p)
            syscall(SYS_munmap, it->second.p, it->second.n);
        if (it->second.fd >= 0)
            syscall(SYS_close, it->second.fd);
        f.erase(it);
    }
    void clear()
    {
        while (!f.empty())
            drop(f.begin()->first);
    }
    ~Files() { clear(); }
};

struct Sched : Rt {
    Tr* t = nullptr;
    Files* fs = nullptr;
    std::vector<std::string> names; // file index -> base name
    std::map<int, int> twin;        // reader's file index -> trace's file index
    // schedule
    struct Ch {
        std::vector<size_t> opt; // positions
        size_t taken;
        uint64_t load; // ordinal of the load
        uint64_t where;
        int file;
    };
    std::vector<Ch> stack;
    size_t depth = 0;
    size_t pos = 0;
    int adv = 0, max_adv = 1000;
    bool trace_loads = false; // with a replay: list the loads of the failing schedule
    std::vector<std::string> trace_log;
    uint64_t loads = 0, max_loads = 100000;
    bool adv_in_attempt = false;
    int idle = 0; // attempts without an advance
    bool redundant_prune = true;
    bool livelock = false;
    uint64_t seen = 0; // hash of the values loaded in this attempt
    std::unordered_map<uint64_t, int> retried;
    std::vector<std::pair<uint32_t, std::string>> undo;

    int twin_of(int f)
    {
        auto it = twin.find(f);
        if (it != twin.end())
            return it->second;
        std::string b = base_name(rt_path(f));
        for (auto& e : t->ev)
            if (base_name(rt_path(e.file)) == b)
                return twin[f] = e.file;
        return twin[f] = -1;
    }
    void apply_one(uint32_t i)
    {
        const Ev& e = t->ev[i];
        std::string n = base_name(rt_path(e.file));
        switch (e.kind) {
        case 'w': {
            Files::F* x = fs->get(n);
            if (!x || e.off + e.data.size() > x->n) {
                // store past the end of the file: through the descriptor
                if (x) {
                    syscall(SYS_pwrite64, x->fd, e.data.data(), e.data.size(), e.off);
                    fs->drop(n);
                }
                break;
            }
            undo.push_back({ i, std::string((char*)x->p + e.off, e.data.size()) });
            memcpy(x->p + e.off, e.data.data(), e.data.size());
            break;
        }
        case 't': {
            Files::F* x = fs->get(n);
            if (x) {
                ftruncate_raw(x->fd, e.off);
                fs->drop(n);
            }
            break;
        }
        case 'c': {
            int fd = (int)syscall(SYS_openat, AT_FDCWD, (fs->dir + "/" + n).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
            if (fd >= 0)
                syscall(SYS_close, fd);
            fs->drop(n);
            break;
        }
        case 'u':
            fs->drop(n);
            syscall(SYS_unlinkat, AT_FDCWD, (fs->dir + "/" + n).c_str(), 0);
            break;
        case 'r':
            fs->drop(n);
            syscall(SYS_rename, (fs->dir + "/" + n).c_str(), (fs->dir + "/" + base_name(rt_path((int)e.off))).c_str());
            fs->drop(base_name(rt_path((int)e.off)));
            break;
        }
    }
    static void ftruncate_raw(int fd, uint64_t n) { syscall(SYS_ftruncate, fd, n); }
    void advance(size_t to)
    {
        if (to <= pos)
            return;
        adv++;
        count(C_ADV);
        adv_in_attempt = true;
        while (pos < to)
            apply_one((uint32_t)pos++);
    }
    void rewind_stores()
    {
        if (t->structural)
            undo.clear(); // the files are rebuilt
        for (size_t i = undo.size(); i-- > 0;) {
            const Ev& e = t->ev[undo[i].first];
            Files::F* x = fs->get(base_name(rt_path(e.file)));
            memcpy(x->p + e.off, undo[i].second.data(), undo[i].second.size());
        }
        undo.clear();
    }
    // bytes [off, off+n) of file f are about to be loaded; cur: their present value
    void load(int f, uint64_t off, size_t n, const uint8_t* cur)
    {
        loads++;
        if (trace_loads)
            trace_log.push_back(strf("%llu %s+%llu/%zu", (unsigned long long)loads, base_name(rt_path(f)).c_str(), (unsigned long long)off, n) + (base_name(rt_path(f)) == "_mabain_h" ? " " + header_field(off) : "") + strf(" pos %zu", pos));
        if (loads > max_loads) {
            livelock = true;
            longjmp(stuck, 1);
        }
        if (depth < stack.size()) { // replaying a prefix
            Ch& c = stack[depth];
            if (loads < c.load)
                return;
            if (c.load != loads || c.where != off) {
                fprintf(term, "engine: replay diverged at load %llu/%llu %llu/%llu\n", (unsigned long long)loads, (unsigned long long)c.load, (unsigned long long)off, (unsigned long long)c.where);
                abort();
            }
            depth++;
            advance(c.opt[c.taken]);
            return;
        }
        if (pos >= t->ev.size() || adv >= max_adv)
            return;
        int tf = twin_of(f);
        if (tf < 0)
            return;
        // the stores still to come that touch these bytes, in order
        uint32_t cand[64];
        size_t nc = 0;
        for (uint64_t l = off >> 3; l <= (off + n - 1) >> 3; l++) {
            auto it = t->at.find(line(tf, l << 3));
            if (it == t->at.end())
                continue;
            auto lo = std::lower_bound(it->second.begin(), it->second.end(), (uint32_t)pos);
            for (; lo != it->second.end() && nc < 64; ++lo) {
                const Ev& e = t->ev[*lo];
                if (e.off < off + n && off < e.off + e.data.size())
                    cand[nc++] = *lo;
            }
        }
        if (!nc)
            return;
        std::sort(cand, cand + nc);
        if (nc == 64)
            count(C_FAR);
        std::vector<std::string> vals { std::string((const char*)cur, n) };
        std::string v = vals[0];
        std::vector<size_t> opts { pos };
        for (size_t i = 0; i < nc; i++) {
            if (i && cand[i] == cand[i - 1])
                continue;
            const Ev& e = t->ev[cand[i]];
            for (size_t k = 0; k < n; k++)
                if (off + k >= e.off && off + k < e.off + e.data.size())
                    v[k] = e.data[off + k - e.off];
            if (std::find(vals.begin(), vals.end(), v) == vals.end()) {
                vals.push_back(v);
                opts.push_back(cand[i] + 1);
            }
        }
        if (opts.size() < 2)
            return;
        stack.push_back({ opts, 0, loads, off, f });
        depth++;
    }
    void read(uintptr_t a, size_t n) override
    {
        const Region* r = rt_region(a);
        uint8_t t[16];
        n = std::min<size_t>(n, 16);
        memcpy(t, (void*)a, n);
        load(r->file, r->off + (a - r->a), n, t);
        seen = hash_bytes((const void*)a, n, hmix(seen, a));
    }
    void file_read(int f, uint64_t off, size_t n) override
    {
        Files::F* x = fs->get(base_name(rt_path(f)));
        uint8_t t[16] = { 0 };
        if (x && off + n <= x->n && n <= 16)
            memcpy(t, x->p + off, n);
        load(f, off, n, t);
        if (x && off + n <= x->n)
            seen = hash_bytes(x->p + off, n, hmix(seen, off));
    }
    bool split_reads() override { return true; }
    bool sleep_us(uint64_t) override
    {
        if (adv_in_attempt)
            idle = 0;
        else if (++idle >= 3) {
            if (pos >= t->ev.size() || adv >= max_adv) {
                // nothing more will happen: the reader would retry forever
                livelock = pos >= t->ev.size();
                throw Prune();
            }
            throw Prune(); // the same as trying again later
        }
        adv_in_attempt = false;
        // What follows depends on the position, and on what this attempt has read.
        uint64_t k = hmix(hmix(seen, pos), idle);
        seen = 0;
        if (depth == stack.size()) {
            auto it = retried.find(k);
            if (it != retried.end() && it->second <= adv)
                throw Prune();
            retried[k] = adv;
        }
        return true;
    }
    void start(size_t p)
    {
        depth = 0;
        pos = p;
        adv = 0;
        loads = 0;
        adv_in_attempt = false;
        idle = 0;
        livelock = false;
        seen = 0;
        trace_log.clear();
    }
    // next schedule; false: all done
    bool next()
    {
        while (!stack.empty()) {
            Ch& c = stack.back();
            if (++c.taken < c.opt.size())
                return true;
            stack.pop_back();
        }
        return false;
    }
    std::string describe()
    {
        std::string s;
        size_t p = 0;
        for (auto& c : stack) {
            size_t to = c.opt[c.taken];
            if (to == c.opt[0])
                continue;
            std::string b = base_name(rt_path(c.file));
            s += strf("; before load %llu (%s) the writer has done %zu stores (last %s)", (unsigned long long)c.load,
                b == "_mabain_h" ? header_field(c.where).c_str() : strf("%s+%llu", b.substr(8).c_str(), (unsigned long long)c.where).c_str(), to, ev_str(t->ev[to - 1]).c_str());
            p = to;
        }
        return s;
    }
};

struct Query {
    char t; // F exact, P longest prefix, I iterate all, J iterate with prefix
    std::string k;
};
static std::string qstr(const Query& q) { return (q.t == 'F' ? "find(" : q.t == 'P' ? "prefix(" : q.t == 'I' ? "iterate(" : "iterate-prefix(") + show(q.k) + ")"; }

static bool allowed_value(const std::vector<const Model*>& ms, const std::string& k, const std::string& v)
{
    for (auto m : ms) {
        auto it = m->find(k);
        if (it != m->end() && it->second == v)
            return true;
    }
    return false;
}

// Runs the query; empty: result allowed in one of the states
static std::string run_query(DB* h, const Query& q, const std::function<std::vector<const Model*>()>& states, std::string& kind)
{
    if (q.t == 'F') {
        std::string v;
        int rc = find(h, q.k, v);
        if (rc == MBError::TRY_AGAIN) {
            count(C_TRY);
            return "";
        }
        auto ms = states();
        if (rc == MBError::SUCCESS) {
            if (allowed_value(ms, q.k, v))
                return "";
            kind = "value";
            bool stored = false;
            for (auto m : ms)
                if (m->count(q.k))
                    stored = true;
            if (!stored)
                kind = "phantom";
            return "returned " + show(v);
        }
        if (rc == MBError::NOT_EXIST) {
            for (auto m : ms)
                if (!m->count(q.k))
                    return "";
            kind = "absent";
            return "reported absent";
        }
        kind = std::string("error-") + es(rc);
        return std::string("failed with ") + es(rc);
    }
    if (q.t == 'P') {
        std::string v;
        int ml = 0;
        int rc = find_prefix(h, q.k, v, ml);
        if (rc == MBError::TRY_AGAIN) {
            count(C_TRY);
            return "";
        }
        auto ms = states();
        if (rc == MBError::SUCCESS) {
            if (ml < 1 || ml > (int)q.k.size() || !allowed_value(ms, q.k.substr(0, ml), v)) {
                kind = "value";
                return strf("returned length %d value ", ml) + show(v);
            }
        } else if (rc == MBError::NOT_EXIST)
            ml = 0;
        else {
            kind = std::string("error-") + es(rc);
            return std::string("failed with ") + es(rc);
        }
        for (int l = (int)q.k.size(); l > ml; l--) {
            bool always = true;
            for (auto m : ms)
                if (!m->count(q.k.substr(0, l)))
                    always = false;
            if (always) {
                kind = "missed";
                return rc == MBError::SUCCESS ? strf("returned length %d although a longer stored prefix is present throughout: ", ml) + show(q.k.substr(0, l)) : "found nothing although a stored prefix is present throughout: " + show(q.k.substr(0, l));
            }
        }
        return "";
    }
    std::vector<std::pair<std::string, std::string>> it;
    if (!iterate(h, q.t == 'J' ? &q.k : nullptr, it, 2000)) {
        kind = "endless";
        return "yielded more than 2000 entries";
    }
    auto ms = states();
    for (auto& e : it)
        if (!allowed_value(ms, e.first, e.second)) {
            bool key = false;
            for (auto m : ms)
                if (m->count(e.first))
                    key = true;
            kind = key ? "iter-value" : "iter-phantom";
            return "yielded " + show(e.first) + " = " + show(e.second);
        }
    return "";
}

static long MAX_SCHED, ADV_BOUND;
static int WLEN; // writer operations per scenario

static void run_lf(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& th = themes[ti];
    std::string wd = worker_dir(), da = wd + "/w", db = wd + "/r";
    mkdir(da.c_str(), 0755);
    mkdir(db.c_str(), 0755);
    rt = nullptr;
    rt_forget_files();
    size_t wl = std::min<size_t>(seq.size(), th.wlen ? th.wlen : WLEN);
    Recorder rec;
    Image im0, im1;
    Tr t;
    bool ok;
    {
        World w;
        ok = w.open(da, th.cfg, false);
        for (size_t i = 0; ok && i < th.init.size(); i++)
            ok = w.apply(th.init[i]);
        for (size_t i = 0; ok && i + wl < seq.size(); i++)
            ok = w.apply(th.ops[seq[i]]);
        if (ok) {
            im0 = load_image(da);
            t.end.push_back(0);
            t.m.push_back(w.m);
            rt = &rec;
            for (size_t i = seq.size() - wl; ok && i < seq.size(); i++) {
                ok = w.apply(th.ops[seq[i]]);
                rec.flush();
                t.end.push_back(rec.ev.size());
                t.m.push_back(w.m);
            }
            rt = nullptr;
            im1 = load_image(da);
            count(C_OPS, seq.size());
            Audit a;
            audit_db(*w.w, a);
            uint64_t h = hmix(a.hash, ti);
            for (auto& e : w.m)
                h = hash_bytes(e.first.data(), e.first.size(), hash_bytes(e.second.data(), e.second.size(), h));
            out.hash = h;
            note_distinct(h);
        }
    }
    DB::ClearResources(da);
    count(C_SCEN);
    if (!ok) {
        out.aux = 1;
        count(C_PRUNED);
        clear_dir(da);
        return;
    }
    // single stores only: adjacent records are never merged, so every torn state is a position
    t.ev = rec.ev;
    count(C_STORES, t.ev.size());
    for (size_t i = 0; i < t.ev.size(); i++) {
        const Ev& e = t.ev[i];
        if (e.kind != 'w') {
            t.structural = true;
            continue;
        }
        for (uint64_t l = e.off >> 3; l <= (e.off + e.data.size() - 1) >> 3; l++)
            t.at[line(e.file, l << 3)].push_back(i);
    }
    {
        Image im = im0;
        for (auto& e : t.ev)
            apply_ev(im, e);
        std::string why;
        if (im.size() != im1.size())
            why = "set of files";
        for (auto& f : im)
            if (im1[f.first] != f.second)
                why = f.first;
        if (!why.empty()) {
            out.fail("harness-trace", "replaying the recorded stores does not give the real files: " + why);
            clear_dir(da);
            return;
        }
    }
    if (t.ev.empty()) {
        clear_dir(da);
        return;
    }
    if (!opt.replay.empty() && opt.verbose)
        for (size_t n = 0; n < t.ev.size(); n++)
            fprintf(term, "%3zu %s\n", n + 1, ev_str(t.ev[n]).c_str());
    // queries
    std::vector<Query> qs;
    std::set<std::string> keys;
    for (auto& m : t.m)
        for (auto& e : m)
            keys.insert(e.first);
    for (size_t i = seq.size() - wl; i < seq.size(); i++)
        if (!th.ops[seq[i]].k.empty())
            keys.insert(th.ops[seq[i]].k);
    std::vector<std::string> kv(keys.begin(), keys.end());
    size_t qmax = th.qmax ? th.qmax : 12;
    if (kv.size() > qmax) { // the operated keys, and a spread of the others
        std::set<std::string> s;
        for (size_t i = seq.size() - wl; i < seq.size(); i++)
            if (!th.ops[seq[i]].k.empty())
                s.insert(th.ops[seq[i]].k);
        // neighbours share the path most
        for (auto& o : std::vector<std::string>(s.begin(), s.end())) {
            auto it = keys.find(o);
            if (it != keys.begin())
                s.insert(*std::prev(it));
            if (std::next(it) != keys.end())
                s.insert(*std::next(it));
        }
        for (size_t i = 0; i < kv.size() && s.size() < qmax; i += 1 + kv.size() / qmax)
            s.insert(kv[i]);
        kv.assign(s.begin(), s.end());
    }
    if (opt.prop == "C07") {
        std::set<std::string> pq;
        for (auto& k : kv) {
            pq.insert(k);
            if (k.size() < 250)
                pq.insert(k + "x");
        }
        for (auto& k : pq)
            qs.push_back({ 'P', k });
        if (keys.size() <= (thorough() ? 64 : 20))
            qs.push_back({ 'I', "" });
        std::set<std::string> ip;
        for (size_t i = seq.size() - wl; i < seq.size(); i++) {
            const std::string& k = th.ops[seq[i]].k;
            if (!k.empty()) {
                ip.insert(k.substr(0, 1));
                ip.insert(k.substr(0, k.size() / 2 + 1));
            }
        }
        for (auto& k : ip)
            qs.push_back({ 'J', k });
    } else
        for (auto& k : kv)
            qs.push_back({ 'F', k });
    // the reader
    store_image(im0, db);
    Files fs;
    fs.dir = db;
    Sched s;
    s.t = &t;
    s.trace_loads = !opt.replay.empty() && opt.verbose;
    s.fs = &fs;
    World w;
    w.dir = db;
    w.cfg = th.cfg;
    bool opened = false;
    // Starting later is the same as advancing before the first load, and as a shorter sequence.
    size_t starts = thorough() ? wl : 1;
    for (size_t st = 0; st < starts && !out.failed; st++) {
        for (auto& q : qs) {
            if (out.failed)
                break;
            bool iter = q.t == 'I' || q.t == 'J';
            s.stack.clear();
            s.retried.clear();
            s.max_adv = iter ? (thorough() ? 2 : 1) : th.adv ? th.adv : ADV_BOUND;
            long n = 0, lim = iter ? MAX_SCHED / 4 : MAX_SCHED;
            uint64_t loads = 0;
            do {
                if (n >= lim) {
                    count(C_CUT);
                    break;
                }
                if (!opened || t.structural) {
                    w.close();
                    DB::ClearResources(db);
                    fs.clear();
                    store_image(im0, db);
                    if (!w.open_reader()) {
                        out.fail("open-reader", w.err);
                        break;
                    }
                    opened = true;
                }
                s.start(t.end[st]);
                size_t base = t.end[st];
                for (size_t i = 0; i < base; i++)
                    s.apply_one((uint32_t)i);
                std::string why, kind;
                volatile bool pruned = false;
                if (setjmp(stuck) == 0) {
                    try {
                        rt = &s;
                        why = run_query(w.r, q, [&] {
                            size_t op = st;
                            while (op < wl && s.pos > t.end[op])
                                op++;
                            std::vector<const Model*> ms;
                            for (size_t i = st; i <= op; i++)
                                ms.push_back(&t.m[i]);
                            return ms;
                        }, kind);
                        rt = nullptr;
                    } catch (Prune&) {
                        rt = nullptr;
                        pruned = true;
                    } catch (int e) {
                        rt = nullptr;
                        kind = "exception";
                        why = strf("threw %d (%s)", e, es(e));
                    }
                } else {
                    rt = nullptr;
                }
                rt_leave();
                if (s.livelock) {
                    kind = "endless";
                    why = "does not end";
                }
                n++;
                count(pruned ? C_REDUNDANT : C_SCHED);
                loads += s.loads;
                if (!why.empty()) {
                    for (auto& l : s.trace_log)
                        fprintf(term, "  load %s\n", l.c_str());
                    std::string vs;
                    for (size_t i = st; i <= wl; i++) {
                        auto it = t.m[i].find(q.k);
                        vs += (vs.empty() ? "" : " -> ") + (it == t.m[i].end() ? std::string("absent") : show(it->second));
                    }
                    out.fail(strf("%s/%s", q.t == 'F' ? "find" : q.t == 'P' ? "prefix" : "iterate", kind.c_str()),
                        strf("[%s] writer: %s (from state %zu of the last %zu operations); reader: %s %s; stored: %s; schedule", th.name.c_str(), desc_seq(ti, seq).c_str(), st, wl, qstr(q).c_str(), why.c_str(), vs.c_str()) + s.describe());
                    if (s.livelock) {
                        // the reader's state cannot be trusted after the jump
                        count(C_STEPS, loads);
                        return;
                    }
                    break;
                }
                s.rewind_stores();
                if ((n & 255) == 0)
                    heartbeat();
            } while (s.next());
            s.rewind_stores();
            count_max(C_MAXP, n);
            count(C_STEPS, loads);
        }
        heartbeat();
    }
    w.close();
    DB::ClearResources(db);
    fs.clear();
    clear_dir(da);
    clear_dir(db);
}

static void select_themes()
{
    bool T = thorough();
    auto add = [&](Theme t, int wlen = 1, int adv = 0) {
        t.cfg.bsi = std::min<uint32_t>(t.cfg.bsi, 16 * 1024);
        t.cfg.maxi = 64;
        t.wlen = wlen;
        t.adv = adv;
        themes.push_back(t);
    };
    MAX_SCHED = opt.getl("sched", T ? 200000 : 12000);
    ADV_BOUND = opt.getl("adv", (T ? 4 : 3) - (opt.prop == "C06" ? 0 : 1));
    WLEN = 1;
    if (opt.prop == "C06" || opt.prop == "C07") {
        add(th_bin3(false, T ? 3 : 2));
        add(th_bin3(true, T ? 2 : 1));
        for (int L : { 8, 13 }) {
            add(th_tail(L, T ? 2 : 1, false));
            add(th_tail(L, T ? 2 : 1, true));
        }
        for (int n : { 1, 2, 3, 16, 17, 255 })
            add(th_fan(n, T ? 2 : 1, "s", n % 2));
        add(th_long(1, true));
        for (const char* c : { "default", "multi", "partial", "unmapped" })
            for (int r : { 0, 1 })
                if (T || !r || c[0] == 'd' || c[0] == 'u')
                    add(th_mixed(c, T ? 2 : 1, "X", r));
        add(th_reuse(T ? 4 : opt.prop == "C07" ? 2 : 3), 8, T ? 3 : 2);
    }
    if (opt.prop == "C11") {
        add(th_life(cfg_small(), T ? 3 : 2, "life", true, false, 0), 2);
        for (const char* c : { "default", "multi", "partial", "unmapped" })
            for (int r : { 0, 1 })
                add(th_mixed(c, T ? 3 : r && c[0] != 'd' ? 1 : 2, "G1", r));
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    mabain::DB::SetLogLevel(0);
    select_themes();
    report_extra = [](Report& r) {
        r.num["stores_recorded"] = shared->ctr[C_STORES];
        r.num["schedules"] = shared->ctr[C_SCHED];
        r.num["redundant_retries"] = shared->ctr[C_REDUNDANT];
        r.num["loads"] = shared->ctr[C_STEPS];
        r.num["preemptions"] = shared->ctr[C_ADV];
        r.num["loads_with_more_than_64_updates_ahead"] = shared->ctr[C_FAR];
        r.num["queries_cut"] = shared->ctr[C_CUT];
        r.num["asked_to_try_again"] = shared->ctr[C_TRY];
        r.num["max_schedules_of_one_query"] = shared->ctr[C_MAXP];
    };
    return explore(run_lf, 60);
}
