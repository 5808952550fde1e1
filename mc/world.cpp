#include "themes.h"
#include "mb_backup.h"
#include <sys/wait.h>
#include <unistd.h>
namespace mc {
static std::string numbered(const std::string& k, long i) // # is where the number goes
{
    size_t p = k.find('#');
    return p == std::string::npos ? k + strf("%03ld", i) : k.substr(0, p) + strf("%03ld", i) + k.substr(p + 1);
}
std::string opstr(const Op& o)
{
    switch (o.t) {
    case 'A': return "add(" + show(o.k) + "=" + show(o.v) + ")";
    case 'O': return "put(" + show(o.k) + "=" + show(o.v) + ")";
    case 'R': return "rm(" + show(o.k) + ")";
    case 'X': return "rmall";
    case 'G': return "gc";
    case 'g': return strf("gc(%ld)", o.n);
    case 'C': return "reopen";
    case 'n': return "reopen-without-cache";
    case 'y': return "reopen-with-cache";
    case 'c': return "reopen-fresh";
    case 'Q': return "reader-reopen";
    case 'L': return "lookups";
    case 'E': return "evict(" + o.k + strf(",gc %ld)", o.n);
    case 'M': return "put8(" + o.k + "0..7)";
    case 'D': return "rm4(" + o.k + "0..7 even)";
    case 'W': return strf("jump(bucket %ld)", o.n);
    case 'B': return "backup";
    case 'k': return "other process: put(" + o.k + "), rm(" + o.v + "), dies";
    case 'H': return "reopen-beside-reader";
    case 'h': return "reopen-fresh-beside-reader";
    case 'U': return strf("put(%s*, %ld values of %ld bytes)", o.k.c_str(), o.n / 100000, o.n % 100000);
    case 'J': return strf("rm(%s*, every %s of %ld)", o.k.c_str(), o.v.c_str(), o.n);
    case 'Z': return o.k;
    case 'I': return "invalid(" + show(o.k) + "," + show(o.v) + ")";
    }
    return std::string(1, o.t);
}

bool World::open(const std::string& d, const Cfg& c, bool reader)
{
    dir = d;
    cfg = c;
    want_reader = reader;
    if (!open_writer())
        return false;
    if (reader && !open_reader())
        return false;
    return true;
}
bool World::open_writer()
{
    MBConfig c;
    fill_config(c, cfg, dir, CONSTS::ACCESS_MODE_WRITER);
    w = new DB(c);
    if (!w->is_open())
        return fail("open-writer", std::string("writer open failed: ") + w->StatusStr());
    return true;
}
bool World::open_reader()
{
    MBConfig c;
    fill_config(c, cfg, dir, CONSTS::ACCESS_MODE_READER, 0x7264);
    r = new DB(c);
    if (!r->is_open())
        return fail("open-reader", std::string("reader open failed: ") + r->StatusStr());
    return true;
}
void World::close()
{
    if (r) {
        r->Close();
        delete r;
    }
    if (w) {
        w->Close();
        delete w;
    }
    r = w = nullptr;
}

MBData* g_reuse;
int find(DB* h, const std::string& key, std::string& v, const std::string& trail)
{
    std::string b = key + trail + std::string(8, '\0');
    MBData own;
    MBData& d = g_reuse ? *g_reuse : own;
    int rc = h->Find(b.data(), (int)key.size(), d);
    if (rc == MBError::SUCCESS)
        v = val_of(d);
    return rc;
}
int find_prefix(DB* h, const std::string& key, std::string& v, int& ml, const std::string& trail)
{
    std::string b = key + trail + std::string(8, '\0');
    MBData own;
    MBData& d = g_reuse ? *g_reuse : own;
    int rc = h->FindLongestPrefix(b.data(), (int)key.size(), d);
    if (rc == MBError::SUCCESS) {
        v = val_of(d);
        ml = d.match_len;
    }
    return rc;
}
int lower_bound(DB* h, const std::string& key, std::string& v, std::string* bk, const std::string& trail)
{
    std::string b = key + trail + std::string(8, '\0');
    MBData own;
    MBData& d = g_reuse ? *g_reuse : own;
    int rc = h->FindLowerBound(b.data(), (int)key.size(), d, bk);
    if (rc == MBError::SUCCESS)
        v = val_of(d);
    return rc;
}
bool iterate(DB* h, const std::string* prefix, std::vector<std::pair<std::string, std::string>>& out, size_t cap)
{
    if (prefix) {
        for (DB::iterator it = h->begin(*prefix); it != h->end(); ++it) {
            out.push_back({ it.key, val_of(it.value) });
            if (out.size() > cap)
                return false;
        }
    } else {
        for (DB::iterator it = h->begin(); it != h->end(); ++it) {
            out.push_back({ it.key, val_of(it.value) });
            if (out.size() > cap)
                return false;
        }
    }
    return true;
}

bool same_contents(DB* h, const Model& m, std::string& why)
{
    if (h->Count() != (int64_t)m.size()) {
        why = strf("count %ld, expected %zu", (long)h->Count(), m.size());
        return false;
    }
    for (auto& e : m) {
        std::string v;
        int rc = find(h, e.first, v);
        if (rc != MBError::SUCCESS || v != e.second) {
            why = "find(" + show(e.first) + ") " + es(rc) + " " + show(v) + ", expected " + show(e.second);
            return false;
        }
    }
    std::vector<std::pair<std::string, std::string>> it;
    if (!iterate(h, nullptr, it, m.size() + 4)) {
        why = "iteration yields too many entries";
        return false;
    }
    Model im(it.begin(), it.end());
    if (it.size() != m.size() || im != m) {
        why = strf("iteration yields %zu entries (%zu distinct), expected %zu", it.size(), im.size(), m.size());
        return false;
    }
    return true;
}

bool World::collect(long a, long b, const Op& o)
{
    IndexHeader* hd = w->dict->GetHeaderPtr();
    size_t i0 = hd->m_index_offset, d0 = hd->m_data_offset;
    bool ri = a > 0 && hd->pending_index_buff_size >= a, rd = b > 0 && hd->pending_data_buff_size >= b;
    collected = true;
    int rc = w->CollectResource(a, b);
    if (rc != 0) {
        if (cfg.tolerant) {
            refused++;
            return true;
        }
        return fail("gc-rc", opstr(o) + ": CollectResource returned " + es(rc));
    }
    if (ri != rd)
        partial_gc = true;
    if (ri && rd)
        partial_gc = false;
    if (cfg.wopt & CONSTS::OPTION_JEMALLOC) // collects nothing
        return true;
    // Blocks can waste their tail, so the strict comparison needs one block.
    bool oneblock = std::max(i0, (size_t)hd->m_index_offset) <= cfg.bsi && std::max(d0, (size_t)hd->m_data_offset) <= cfg.bsd;
    if (oneblock ? hd->m_index_offset > i0 || hd->m_data_offset > d0 : (hd->m_index_offset + cfg.bsi - 1) / cfg.bsi > (i0 + cfg.bsi - 1) / cfg.bsi + 1 || (hd->m_data_offset + cfg.bsd - 1) / cfg.bsd > (d0 + cfg.bsd - 1) / cfg.bsd + 1)
        return fail("gc-grows", strf("%s: space in use grew: index %zu -> %zu, data %zu -> %zu", opstr(o).c_str(), i0, (size_t)hd->m_index_offset, d0, (size_t)hd->m_data_offset));
    if ((ri && hd->pending_index_buff_size != 0) || (rd && hd->pending_data_buff_size != 0))
        return fail("gc-pending", strf("%s: garbage left after collection: index %ld data %ld", opstr(o).c_str(), (long)hd->pending_index_buff_size, (long)hd->pending_data_buff_size));
    if (ri || rd) { // what was collected is packed: holes only where the next object did not fit into its block
        Audit au;
        audit_db(*w, au, false);
        if (!au.err.empty())
            return fail("gc-structure", opstr(o) + ": " + au.err);
        for (int k = 0; k < 2; k++) {
            if (k ? !rd : !ri)
                continue;
            auto& v = k ? au.dat : au.idx;
            size_t bs = k ? cfg.bsd : cfg.bsi, pos = k ? au.dat_start : 0, end = k ? au.dat_end : au.idx_end;
            std::sort(v.begin(), v.end(), [](const Audit::Obj& x, const Audit::Obj& y) { return x.off < y.off; });
            if (!k && !v.empty())
                pos = v[0].off;
            for (auto& ob : v) {
                if (ob.off != pos && !(ob.off % bs == 0 && ob.off > pos && pos % bs + ob.size > bs && ob.off - pos < bs))
                    return fail("gc-not-packed", strf("%s: %s at %zu follows %zu", opstr(o).c_str(), k ? "value" : "index object", ob.off, pos));
                pos = ob.off + ob.size;
            }
            if (pos != end)
                return fail("gc-not-packed", strf("%s: %s ends at %zu, header says %zu", opstr(o).c_str(), k ? "data" : "index", pos, end));
        }
    }
    return true;
}

bool World::fresh_reader(bool)
{
    char* msg = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int st = in_child([&] {
        DB::ClearResources(dir); // this process's own mappings only: the child starts without any
        MBConfig c;
        fill_config(c, cfg, dir, CONSTS::ACCESS_MODE_READER, 0x7266);
        DB h(c);
        std::string why;
        if (!h.is_open())
            why = std::string("open failed: ") + h.StatusStr();
        else
            same_contents(&h, m, why);
        snprintf(msg, 4000, "%s", why.c_str());
        _exit(0);
    },
        20);
    std::string why = msg;
    munmap(msg, 4096);
    if (st != 0)
        return fail("other-process-reader-crash", strf("a reader in another process ended with status 0x%x", st));
    if (!why.empty())
        return fail("other-process-reader", "a reader opened in another process: " + why);
    return true;
}

static std::string queue_bytes(DB* d)
{
    IndexHeader* hd = d->dict->GetHeaderPtr();
    std::string s = strf("%u %u ", hd->queue_index.load(), hd->writer_index.load());
    AsyncNode* q = d->dict->queue;
    for (int i = 0; q && i < hd->async_queue_size; i++)
        s += strf("%d %d %d|", (int)q[i].in_use.load(), (int)q[i].num_reader.load(), (int)q[i].type) + std::string(q[i].key, 8) + std::string(q[i].data, 8);
    return s;
}

bool World::check_copy(const std::string& bd, const Model& m)
{
    Cfg g = cfg;
    g.wopt &= ~CONSTS::ASYNC_WRITER_MODE;
    std::string why;
    // another process, before anything else has opened the copy
    char* msg = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int st = in_child([&] {
        DB::ClearResources(dir);
        MBConfig c;
        fill_config(c, g, bd, CONSTS::ACCESS_MODE_READER, 0x7266);
        DB h(c);
        std::string why;
        if (!h.is_open())
            why = std::string("does not open: ") + h.StatusStr();
        else
            same_contents(&h, m, why);
        h.Close();
        snprintf(msg, 4000, "%s", why.c_str());
        _exit(0);
    },
        20);
    why = msg;
    munmap(msg, 4096);
    if (st != 0)
        return fail("backup-reader-crash", strf("a reader of the backup in another process ended with status 0x%x", st));
    if (!why.empty())
        return fail("backup-contents", "the backup, read by another process: " + why);
    if (cfg.wopt & CONSTS::OPTION_JEMALLOC) // a writer would reset it
        return true;
    bool ok = true;
    for (int wr = 0; wr < 2 && ok; wr++) {
        MBConfig c;
        fill_config(c, g, bd, wr ? CONSTS::ACCESS_MODE_WRITER : CONSTS::ACCESS_MODE_READER, 0x626b);
        DB b(c);
        if (!b.is_open()) {
            ok = fail("backup-open", std::string("backup does not open: ") + b.StatusStr());
            break;
        }
        IndexHeader* hd = b.dict->GetHeaderPtr();
        if (hd->num_writer != wr || hd->num_reader != 1 - wr)
            ok = fail("backup-handles", strf("one %s is open, the copy's header counts %d writers, %d readers", wr ? "writer" : "reader", hd->num_writer, hd->num_reader));
        else if (!same_contents(&b, m, why))
            ok = fail("backup-contents", "backup differs: " + why);
        else if (wr) {
            Audit a;
            audit_db(b, a);
            if (!a.err.empty() || a.kv != m)
                ok = fail("backup-structure", "backup: " + a.err);
            Model sm = m;
            for (auto& e : sm)
                b.Remove(e.first.data(), e.first.size());
            b.Add("only-in-copy", 12, "x", 1);
            sm.clear();
            sm["only-in-copy"] = "x";
            if (ok && !same_contents(&b, sm, why))
                ok = fail("backup-updates", "updates of the copy: " + why);
            if (ok && !same_contents(w, this->m, why))
                ok = fail("backup-independent", "updates of the copy changed the source: " + why);
        } else { // an update submitted to the copy's writer must not reach the source's
            std::string q = queue_bytes(w);
            b.Add("to-copy", 7, "x", 1);
            if (queue_bytes(w) != q)
                ok = fail("backup-shares-queue", "an update submitted through a reader of the copy went to the queue of the source");
            hd->queue_index.store(hd->writer_index.load());
        }
        b.Close();
    }
    DB::ClearResources(bd);
    return ok;
}

// o.n: 0 verified at once; 1 left behind, to be verified by 'V' after later updates
bool World::backup(const Op& o)
{
    std::string bd = dir + strf("/b%d", nbackup++);
    clear_dir(bd);
    mkdir(bd.c_str(), 0755);
    int rc = w->Backup(bd.c_str());
    if (rc != 0)
        return fail(strf("backup-rc-%s", es(rc)), std::string("Backup returned ") + es(rc));
    std::string why;
    if (!same_contents(w, m, why))
        return fail("backup-source", "after the backup the source " + why);
    copies.push_back({ bd, m });
    return o.n || verify_copies();
}

bool World::verify_copies()
{
    bool ok = true;
    for (auto& c : copies) {
        ok = ok && check_copy(c.first, c.second);
        DB::ClearResources(c.first);
        clear_dir(c.first);
        rmdir(c.first.c_str());
    }
    copies.clear();
    return ok;
}

// o.k: which limit is how far exceeded ("c0" count limit = count, "c1" one less,
// "c8", "c16" that many less, "ch" half, "c2" 2; "s0", "s1", "sh", "ss" the same
// for the size); o.n: thresholds of the collection in the same call
bool World::evict(const Op& o)
{
    IndexHeader* hd = w->dict->GetHeaderPtr();
    int64_t size = hd->m_index_offset + hd->m_data_offset, cnt = m.size();
    int64_t ms = MAX_6B_OFFSET, mc = MAX_6B_OFFSET;
    std::string lim = o.k.substr(1);
    for (char c : o.k.substr(0, 1)) {
        int64_t cur = c == 's' ? size : cnt;
        int64_t l = lim == "h" ? cur / 2 : lim == "s" ? 2 : lim == "b" ? cur - cur / 5 : cur - atoi(lim.c_str());
        (c == 's' ? ms : mc) = std::max<int64_t>(l, 1);
    }
    bool over = size > ms || cnt > mc;
    uint16_t e0 = hd->eviction_bucket_index;
    // About to reuse the oldest bucket: the next update makes room first.
    bool full_turn = (hd->num_update / hd->entry_per_bucket) % 0xFFFF == e0;
    collected = true;
    int rc = w->CollectResource(o.n, o.n, ms, mc);
    if (rc != 0)
        return fail("evict-rc", opstr(o) + ": CollectResource returned " + es(rc));
    Model before = m;
    std::string youngest_gone, oldest_kept;
    for (auto& e : before) {
        std::string v;
        int r = find(w, e.first, v);
        if (r == MBError::NOT_EXIST) {
            m.erase(e.first);
            if (youngest_gone.empty() || stamp[e.first] > stamp[youngest_gone])
                youngest_gone = e.first;
        } else if (r != 0 || v != e.second)
            return fail("evict-damages", opstr(o) + ": Find(" + show(e.first) + ") = " + es(r) + " " + show(v) + ", expected " + show(e.second));
        else if (oldest_kept.empty() || stamp[e.first] < stamp[oldest_kept])
            oldest_kept = e.first;
    }
    std::string lims = strf("(size %ld of %ld, count %ld of %ld)", (long)size, (long)ms, (long)cnt, (long)mc);
    if (!over && m.size() != before.size())
        return fail("evict-within-limits", opstr(o) + lims + ": removed " + show(youngest_gone) + " although no limit is exceeded");
    long B = cfg.bucket;
    if (!youngest_gone.empty() && !oldest_kept.empty() && stamp[youngest_gone] / B > stamp[oldest_kept] / B + 1)
        return fail("evict-newer", strf("%s%s: removed %s of bucket %ld and kept %s of bucket %ld", opstr(o).c_str(), lims.c_str(), show(youngest_gone).c_str(), stamp[youngest_gone] / B, show(oldest_kept).c_str(), stamp[oldest_kept] / B));
    // Exceeded by far, with entries of several ages: something must happen, at once or
    // when it is called again (an eviction covers half of the ages, which may hold nothing).
    if (!before.empty() && !full_turn && m.size() == before.size() && (ms <= size / 2 || mc <= cnt / 2)) {
        std::set<long> bs;
        for (auto& e : before)
            bs.insert(stamp[e.first] / B);
        int tries = lagged ? 20 : 1, i = 0;
        while (bs.size() >= 4 && w->Count() == (int64_t)m.size()) {
            if (i++ == tries)
                return fail("evict-no-progress", opstr(o) + lims + strf(": nothing removed of %zu entries of %zu buckets by %d evictions", before.size(), bs.size(), tries + 1));
            w->CollectResource(o.n, o.n, ms, mc);
        }
        for (auto& e : before) {
            std::string v;
            int r = find(w, e.first, v);
            if (r == MBError::NOT_EXIST)
                m.erase(e.first);
            else if (r != 0 || v != e.second)
                return fail("evict-damages", opstr(o) + ": Find(" + show(e.first) + ") = " + es(r) + " " + show(v) + ", expected " + show(e.second));
        }
    }
    if (m.size() < before.size())
        nevicted++;
    std::string why;
    if (!same_contents(w, m, why))
        return fail("evict-contents", opstr(o) + lims + ": afterwards " + why);
    return true;
}

bool World::apply(const Op& o)
{
    int rc = 0, want = 0;
    switch (o.t) {
    case 'A':
    case 'O': {
        bool ow = o.t == 'O';
        bool badarg = o.k.empty() || o.k.size() > 256 || o.v.empty() || o.v.size() > 32767;
        // exact-size heap copies: reading past the given lengths is a heap overflow
        rc = w->Add(o.k.data(), (int)o.k.size(), o.v.data(), (int)o.v.size(), ow);
        if (badarg) {
            if (rc == MBError::SUCCESS)
                return fail("limit-accepted", opstr(o) + " outside the limits returned SUCCESS");
            return true;
        }
        auto it = m.find(o.k);
        if (it != m.end() && !ow)
            want = MBError::IN_DICT;
        else if (cfg.tolerant && rc != MBError::SUCCESS && rc != MBError::IN_DICT && rc != MBError::NOT_EXIST) {
            refused++; // must have changed nothing
            return true;
        } else {
            m[o.k] = o.v;
            stamp[o.k] = updates++;
        }
        if (rc != want)
            return fail(strf("add-rc-%s-for-%s", es(rc), es(want)), opstr(o) + " returned " + es(rc) + ", expected " + es(want));
        return true;
    }
    case 'R':
        rc = w->Remove(o.k.data(), (int)o.k.size());
        if (cfg.tolerant && rc != MBError::SUCCESS && rc != MBError::NOT_EXIST) {
            refused++;
            return true;
        }
        if (o.k.empty() || o.k.size() > 256) {
            if (rc == MBError::SUCCESS)
                return fail("limit-accepted", opstr(o) + " outside the limits returned SUCCESS");
            return true;
        }
        want = m.erase(o.k) ? MBError::SUCCESS : MBError::NOT_EXIST;
        if (rc != want)
            return fail(strf("remove-rc-%s-for-%s", es(rc), es(want)), opstr(o) + " returned " + es(rc) + ", expected " + es(want));
        return true;
    case 'X':
        rc = w->RemoveAll();
        m.clear();
        updates = 0;
        if (rc != 0)
            return fail("removeall-rc", std::string("RemoveAll returned ") + es(rc));
        return true;
    case 'G':
        return collect(1, 1, o);
    case 'g':
        return collect(o.n & 0xffff, o.n >> 16, o);
    case 'E':
        return evict(o);
    case 'M':
        for (int i = 0; i < 8; i++)
            if (!apply(Op { 'O', o.k + (char)('0' + i), strf("%ld:", updates) + o.k + (char)('0' + i) + std::string(i * 5, 'v'), 0 }))
                return false;
        return true;
    case 'D':
        for (int i = 0; i < 8; i += 2)
            if (!apply(Op { 'R', o.k + (char)('0' + i), "", 0 }))
                return false;
        return true;
    case 'W': { // as if that many buckets had been filled, and emptied by evictions
        IndexHeader* hd = w->dict->GetHeaderPtr();
        updates = o.n * cfg.bucket;
        lagged = !o.k.empty();
        hd->num_update = updates;
        // Never ahead of the bucket in use, unless it comes around again: all the
        // buckets may have been filled since the last eviction, and the entries replaced.
        hd->eviction_bucket_index = (o.n + (o.k.empty() ? -1 : atoi(o.k.c_str()))) % 0xFFFF;
        return true;
    }
    case 'B':
        return backup(o);
    case 'V':
        return verify_copies();
    case 'F':
        return fresh_reader(true);
    case 'C':
    case 'c':
    case 'n':
    case 'y':
        close();
        if (o.t == 'n')
            cfg.wopt &= ~CONSTS::OPTION_PREFIX_CACHE;
        if (o.t == 'y')
            cfg.wopt |= CONSTS::OPTION_PREFIX_CACHE;
        if (o.t == 'c')
            DB::ClearResources(dir); // as a new process would see it
        if (!open_writer())
            return false;
        if (want_reader && !open_reader())
            return false;
        return true;
    case 'k': { // another process opens it, updates it and ends without closing it
        close();
        DB::ClearResources(dir);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            World c;
            c.dir = dir;
            c.cfg = cfg;
            c.m = m;
            c.cfg.tolerant = false;
            int st = 0;
            if (!c.open_writer())
                st = 1;
            else if (!c.apply(Op { 'O', o.k, val(o.k, 7, 50), 0 }) || !c.apply(Op { 'R', o.v, "", 0 }))
                st = 2;
            _exit(st);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            return fail("other-process", strf("another process could not open or update the database: status %d", st));
        m[o.k] = val(o.k, 7, 50);
        m.erase(o.v);
        if (!open_writer())
            return false;
        return !want_reader || open_reader();
    }
    case 'H': // the reader stays
    case 'h':
        w->Close();
        delete w;
        w = nullptr;
        if (o.t == 'h')
            DB::ClearResources(dir);
        return open_writer();
    case 'U': // many
        for (long i = 0; i < o.n / 100000; i++)
            if (!apply(Op { 'O', numbered(o.k, i), val(o.k, (int)(updates + i), (int)(o.n % 100000)), 0 }))
                return false;
        return true;
    case 'J':
        for (long i = 0, st = atol(o.v.c_str()); i < o.n; i += st)
            if (!apply(Op { 'R', numbered(o.k, i), "", 0 }))
                return false;
        return true;
    case 'Q':
        if (r) {
            r->Close();
            delete r;
            r = nullptr;
        }
        return open_reader();
    case 'L': {
        std::string v;
        int ml;
        for (DB* h : { w, r }) {
            if (!h)
                continue;
            if (!o.k.empty()) {
                find(h, o.k, v);
                find_prefix(h, o.k, v, ml);
            } else
                for (auto& e : m) {
                    find(h, e.first, v);
                    find_prefix(h, e.first + "z", v, ml);
                }
        }
        return true;
    }
    }
    return fail("harness", "unknown op");
}

static std::string trail_for(const Model& m, const std::string& q, int which)
{
    // bytes that continue a stored key which extends q
    int n = 0;
    for (auto it = m.lower_bound(q); it != m.end() && it->first.compare(0, q.size(), q) == 0; ++it) {
        if (it->first.size() > q.size()) {
            if (n++ == which)
                return it->first.substr(q.size());
        }
    }
    return "";
}

bool World::check(DB* h, const char* hn, unsigned obs, const std::vector<std::string>& queries,
    const std::vector<std::string>& prefixes)
{
    if (obs & O_COUNT) {
        if (h->Count() != (int64_t)m.size())
            return fail("count", strf("%s: Count() = %ld, expected %zu", hn, (long)h->Count(), m.size()));
    }
    for (auto& q : queries) {
        int nt = (obs & O_TRAIL) ? 4 : 1;
        for (int t = 0; t < nt; t++) {
            std::string tr;
            if (t == 1 || t == 2) {
                tr = trail_for(m, q, t - 1);
                if (tr.empty())
                    continue;
            } else if (t == 3)
                tr = std::string(16, '\xff');
            const char* tn = t ? "-trailing-bytes" : "";
            std::string v;
            if (obs & O_FIND) {
                auto it = m.find(q);
                int rc = find(h, q, v, tr);
                bool okk = it == m.end() ? rc == MBError::NOT_EXIST : (rc == MBError::SUCCESS && v == it->second);
                if (q.empty() || q.size() > 256)
                    okk = rc != MBError::SUCCESS;
                if (!okk)
                    return fail(std::string("find") + tn, strf("%s: Find(%s) = %s %s, expected %s", hn, show(q).c_str(), es(rc), rc ? "" : show(v).c_str(), it == m.end() ? "NOT_EXIST" : show(it->second).c_str()));
            }
            if ((obs & O_INDB) && !q.empty() && q.size() <= 256) {
                int e = 0;
                std::string b = q + tr + std::string(8, '\0');
                bool in = h->InDB(b.data(), (int)q.size(), e);
                if (in != (m.count(q) > 0) || e)
                    return fail(std::string("indb") + tn, strf("%s: InDB(%s) = %d err %d", hn, show(q).c_str(), in, e));
            }
            if ((obs & O_PREFIX) && q.size() <= 256) {
                int ml = -1;
                int rc = find_prefix(h, q, v, ml, tr);
                size_t L = q.size();
                Model::const_iterator it = m.end();
                for (; L > 0; L--) {
                    it = m.find(q.substr(0, L));
                    if (it != m.end())
                        break;
                }
                bool okk = it == m.end() ? (q.empty() ? rc != MBError::SUCCESS : rc == MBError::NOT_EXIST) : (rc == MBError::SUCCESS && v == it->second && ml == (int)L);
                if (!okk)
                    return fail(std::string("prefix") + tn, strf("%s: FindLongestPrefix(%s) = %s %s len %d, expected %s", hn, show(q).c_str(), es(rc), rc ? "" : show(v).c_str(), ml, it == m.end() ? "NOT_EXIST" : (show(it->second) + strf(" len %zu", L)).c_str()));
            }
            if ((obs & O_LB) && !q.empty() && q.size() <= 256) {
                auto it = m.upper_bound(q);
                bool ex = it != m.begin();
                if (ex)
                    --it;
                std::string bk;
                int rc = lower_bound(h, q, v, &bk, tr);
                bool okk = ex ? (rc == MBError::SUCCESS && v == it->second && bk == it->first) : rc == MBError::NOT_EXIST;
                if (okk && ex) {
                    rc = lower_bound(h, q, v, nullptr, tr);
                    okk = rc == MBError::SUCCESS && v == it->second;
                    bk = "(not asked)";
                }
                if (!okk)
                    return fail(std::string("lowerbound") + tn, strf("%s: FindLowerBound(%s) = %s %s key %s, expected %s", hn, show(q).c_str(), es(rc), rc ? "" : show(v).c_str(), show(bk).c_str(), ex ? show(it->first).c_str() : "NOT_EXIST"));
            }
        }
    }
    if (obs & O_ITER) {
        std::vector<std::pair<std::string, std::string>> o;
        bool fin = iterate(h, nullptr, o, m.size() + 8);
        std::map<std::string, std::string> im(o.begin(), o.end());
        if (!fin || o.size() != m.size() || im != m) {
            std::string d;
            for (auto& e : m)
                if (!im.count(e.first))
                    d += " missing " + show(e.first);
                else if (im[e.first] != e.second)
                    d += " wrong value for " + show(e.first);
            for (auto& e : im)
                if (!m.count(e.first))
                    d += " foreign " + show(e.first);
            return fail("iterate", strf("%s: iteration yields %zu entries, expected %zu:%s", hn, o.size(), m.size(), d.c_str()));
        }
    }
    if (obs & O_PITER) {
        for (auto& p : prefixes) {
            std::vector<std::pair<std::string, std::string>> o;
            bool fin = iterate(h, &p, o, m.size() + 8);
            std::map<std::string, std::string> im(o.begin(), o.end()), want;
            for (auto& e : m)
                if (e.first.compare(0, p.size(), p) == 0)
                    want.insert(e);
            if (!fin || o.size() != want.size() || im != want) {
                std::string d;
                for (auto& e : want)
                    if (!im.count(e.first))
                        d += " missing " + show(e.first);
                for (auto& e : im)
                    if (!want.count(e.first))
                        d += " foreign " + show(e.first);
                return fail("prefix-iterate", strf("%s: begin(\"%s\") yields %zu entries, expected %zu:%s", hn, show(p).c_str(), o.size(), want.size(), d.c_str()));
            }
        }
    }
    return true;
}

static bool disjoint(std::vector<Audit::Obj> v, size_t end, std::string& why, size_t& tot)
{
    std::sort(v.begin(), v.end(), [](const Audit::Obj& a, const Audit::Obj& b) { return a.off < b.off || (a.off == b.off && a.size < b.size); });
    tot = 0;
    for (size_t i = 0; i < v.size(); i++) {
        tot += v[i].size;
        if (v[i].off + v[i].size > end) {
            why = strf("%c [%zu,+%d) beyond allocated end %zu", v[i].kind, v[i].off, v[i].size, end);
            return false;
        }
        if (i + 1 < v.size() && v[i].off + v[i].size > v[i + 1].off) {
            why = strf("%c [%zu,+%d) overlaps %c [%zu,+%d)", v[i].kind, v[i].off, v[i].size, v[i + 1].kind, v[i + 1].off, v[i + 1].size);
            return false;
        }
    }
    return true;
}

bool World::audit(Audit& a, bool strict)
{
    audit_db(*w, a);
    if (!a.err.empty())
        return fail("audit-structure", a.err);
    if (!strict)
        return true;
    if (a.kv != m)
        return fail("audit-contents", strf("reachable entries %zu, expected %zu", a.kv.size(), m.size()));
    std::vector<Audit::Obj> i = a.idx, d = a.dat;
    i.insert(i.end(), a.fidx.begin(), a.fidx.end());
    d.insert(d.end(), a.fdat.begin(), a.fdat.end());
    std::string why;
    size_t ti, td;
    if (!disjoint(i, a.idx_end, why, ti))
        return fail("audit-overlap-index", "index: " + why);
    if (!disjoint(d, a.dat_end, why, td))
        return fail("audit-overlap-data", "data: " + why);
    IndexHeader* hd = w->dict->GetHeaderPtr();
    auto sum = [](const std::vector<Audit::Obj>& v) { int64_t s = 0; for (auto& o : v) s += o.size; return s; };
    if (hd->count != (int64_t)m.size())
        return fail("audit-count", strf("header count %ld, reachable %zu", (long)hd->count, m.size()));
    if (!(cfg.wopt & CONSTS::OPTION_JEMALLOC) && !partial_gc && !cfg.tolerant && !lossy) {
        // A buffer that does not fit in its list is kept as a smaller one, or not at all
        // (FreeList::ReuseBuffer). It is waiting to be collected nevertheless.
        auto wrong = [&](int64_t pending, const std::vector<Audit::Obj>& v) { return cfg.full_lists ? pending < sum(v) : pending != sum(v); };
        if (wrong(hd->pending_index_buff_size, a.fidx))
            return fail("audit-pending-index", strf("header pending index %ld, free lists %ld", (long)hd->pending_index_buff_size, (long)sum(a.fidx)));
        if (wrong(hd->pending_data_buff_size, a.fdat))
            return fail("audit-pending-data", strf("header pending data %ld, free lists %ld", (long)hd->pending_data_buff_size, (long)sum(a.fdat)));
        // Everything handed out so far is in use or waiting to be collected.
        // A collection leaves the end of a block that is too small for the next object unused.
        auto skipped = [&](const std::vector<Audit::Obj>& v, size_t pos, size_t block) {
            size_t n = 0;
            for (auto& o : v) { // sorted
                if (collected && o.off > pos && o.off % block == 0 && o.off - pos < block)
                    n += o.off - pos;
                pos = o.off + o.size;
            }
            return n;
        };
        auto by_off = [](const Audit::Obj& x, const Audit::Obj& y) { return x.off < y.off; };
        std::sort(i.begin(), i.end(), by_off);
        std::sort(d.begin(), d.end(), by_off);
        size_t si = skipped(i, 0, cfg.bsi), sd = skipped(d, w->dict->GetStartDataOffset(), cfg.bsd);
        size_t li = sum(a.idx) + hd->pending_index_buff_size, ld = sum(a.dat) + hd->pending_data_buff_size + w->dict->GetStartDataOffset();
        if (li > a.idx_end || li + si < a.idx_end)
            return fail("audit-lost-index", strf("index: %zu bytes in use or waiting to be collected, but %zu handed out", li, a.idx_end));
        if (ld > a.dat_end || ld + sd < a.dat_end)
            return fail("audit-lost-data", strf("data: %zu bytes in use or waiting to be collected, but %zu handed out", ld, a.dat_end));
        // The lists keep their own totals.
        for (bool x : { true, false }) {
            FreeList* l = x ? w->dict->GetMM()->GetFreeList() : w->dict->GetFreeList();
            auto& v = x ? a.fidx : a.fdat;
            if (l && ((int64_t)l->GetTotSize() != sum(v) || l->Count() != (int64_t)v.size()))
                return fail("audit-free-total", strf("%s: the free lists hold %zu buffers, %ld bytes; their totals say %ld, %zu", x ? "index" : "data", v.size(), (long)sum(v), (long)l->Count(), l->GetTotSize()));
        }
    }
    return true;
}

std::vector<std::string> make_queries(const std::vector<std::string>& keys, size_t cap)
{
    std::set<std::string> s(keys.begin(), keys.end());
    auto neigh = [&](const std::string& k) {
        std::string x;
        if (k.size() < 256) {
            s.insert(k + std::string(1, '\0'));
            s.insert(k + "\xff");
            s.insert(k + k.substr(k.size() - 1));
        }
        for (size_t p : { k.size() - 1, k.size() / 2, (size_t)0 }) {
            x = k;
            if ((unsigned char)x[p] < 255) {
                x[p]++;
                s.insert(x);
            }
            x = k;
            if ((unsigned char)x[p] > 0) {
                x[p]--;
                s.insert(x);
                if (x.size() < 256)
                    s.insert(x + "\xff");
            }
        }
    };
    for (auto& k : keys) {
        if (k.empty() || k.size() > 256)
            continue;
        size_t step = k.size() > 24 ? k.size() / 12 : 1;
        for (size_t l = 1; l < k.size(); l += step)
            s.insert(k.substr(0, l));
        s.insert(k.substr(0, k.size() - 1));
    }
    s.erase("");
    std::vector<std::string> base(s.begin(), s.end());
    for (auto& k : base)
        if (s.size() < cap && k.size() <= 256)
            neigh(k);
    s.erase("");
    return std::vector<std::string>(s.begin(), s.end());
}
}
