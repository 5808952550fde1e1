// Engine O: who may write, and what opening does to a database.
// C19: all sequences of opening (every kind of handle), closing, assigning and
//      killing over two processes with two handles each, on real processes.
// C20: all configurations that differ from the database's own in up to k
//      settings, and all damages of the header from a set, on real files.
#include "themes.h"
#include <dirent.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
using namespace mc;
enum { C_CASES, C_OPS, C_CFG, C_PRUNED, C_REFUSED, C_OPENED, C_PROBES, C_DAMAGED, C_DAMERR };

static void drop_all() { ResourcePool::getInstance().RemoveAll(); }

// ---------------------------------------------------------------- C19 -------
// One handle slot of a process.
struct Slot {
    char kind = 0; // 0 free
    DB* db = nullptr;
};
static const char* KINDS = "WARQkbnD"; // writer, async writer, reader, read-only reader, writer with another queue size / block size / bucket size, copy of the other handle
static MBConfig cfg_for(char kind, const Cfg& g, const std::string& dir)
{
    Cfg c = g;
    int mode = CONSTS::ACCESS_MODE_WRITER;
    if (kind == 'A')
        mode |= CONSTS::ASYNC_WRITER_MODE;
    if (kind == 'R')
        mode = CONSTS::ACCESS_MODE_READER;
    if (kind == 'Q')
        mode = CONSTS::ACCESS_MODE_READER | CONSTS::READ_ONLY_DB;
    if (kind == 'k')
        c.qsize++;
    if (kind == 'b')
        c.bsd *= 2;
    if (kind == 'n')
        c.bucket = 7;
    MBConfig m;
    fill_config(m, c, dir, mode, 0);
    return m;
}
static bool settled(DB* db)
{
    for (int i = 0; i < 20000; i++) {
        IndexHeader* h = db->dict->GetHeaderPtr();
        if (h->writer_index.load() == h->queue_index.load() && !db->AsyncWriterBusy())
            return true;
        usleep(100);
    }
    return false;
}
// The process that owns the handles: executes commands, answers with a line.
static void serve(int fd, const std::string& dir, const Cfg& g)
{
    Slot s[2];
    char b[600];
    auto say = [&](const std::string& x) {
        std::string y = x.substr(0, 590);
        if (write(fd, y.data(), y.size() + 1) < 0)
            _exit(1);
    };
    while (true) {
        ssize_t n = read(fd, b, sizeof b - 1);
        if (n <= 0)
            _exit(0);
        b[n] = 0;
        int i = b[1] - '0';
        if (b[0] == 'o') {
            char k = b[2];
            s[i].kind = k;
            if (k == 'D')
                s[i].db = new DB(*s[!i].db);
            else {
                MBConfig c = cfg_for(k, g, dir);
                s[i].db = new DB(c);
            }
            say(strf("%d", s[i].db->Status()));
        } else if (b[0] == 'c') {
            s[i].db->Close();
            delete s[i].db;
            s[i] = Slot();
            say("ok");
        } else if (b[0] == '=') {
            *s[i].db = *s[!i].db;
            say(strf("%d", s[i].db->Status()));
        } else if (b[0] == 'u') { // an update through the writer
            std::string key = b + 2;
            int rc = s[i].db->Add(key, key + "-value", true);
            if (rc == 0 && s[i].db->async_writer && !settled(s[i].db))
                rc = 999;
            say(strf("%d", rc));
        } else if (b[0] == 'm') { // every other update, through a handle that is not the writer
            std::string r;
            DB* d = s[i].db;
            bool queue_ok = b[2] == 'q';
            auto t = [&](const char* nm, int rc) { r += strf("%s%s=%d", r.empty() ? "" : " ", nm, rc); };
            const char* junk = "!!!!";
            if (queue_ok) { // at most handed to an asynchronous writer
                t("add", d->Add("base0", "other", true));
                t("remove", d->Remove("base1"));
                t("add-new", d->Add("intruder", "other", false));
                t("removeall", d->RemoveAll());
                t("collect", d->CollectResource(1, 1, 1, 1));
            }
            t("removeallsync", d->RemoveAllSync());
            for (size_t o : { 0, 32, 36, 40 })
                t("write", d->WriteDataByOffset(o, junk, 4));
            say(r);
        } else if (b[0] == 'r') { // reads through a reader
            std::string v;
            int rc = find(s[i].db, b + 2, v);
            say(strf("%d ", rc) + v);
        } else if (b[0] == 's') { // canonical form of what the process holds
            std::string r;
            for (auto& x : s) {
                r += x.kind ? x.kind : '-';
                if (x.db)
                    r += strf("%d,%d,%d,%d ", x.db->status, x.db->writer_lock_fd >= 0, x.db->dict != nullptr, x.db->async_writer != nullptr);
            }
            for (auto& e : ResourcePool::getInstance().file_pool)
                r += e.first.substr(e.first.rfind('/') + 1).substr(0, 9) + (e.first.find("_lock") != std::string::npos ? "L" : "") + (e.first.find("guard") != std::string::npos ? "G" : "") + " ";
            say(r);
        }
    }
}
struct Proc {
    pid_t pid = 0;
    int fd = -1;
    char kind[2] = { 0, 0 };
    int status[2] = { 0, 0 };
    bool died = false;
};
struct Site {
    std::string dir;
    Cfg g;
    Proc p[2];
    int hp = -1, hs = -1; // the holder: process and slot
    Model m;
    int marks = 0;
    std::string kind, err;
    bool fail(const std::string& k, const std::string& e)
    {
        if (kind.empty()) {
            kind = k;
            err = e;
        }
        return false;
    }
    void spawn(int i)
    {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv))
            abort();
        fflush(term);
        pid_t q = fork();
        if (q == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(sv[0]);
            for (auto& o : p)
                if (o.fd >= 0)
                    close(o.fd);
            drop_all();
            signal(SIGPIPE, SIG_IGN);
            serve(sv[1], dir, g);
            _exit(0);
        }
        close(sv[1]);
        p[i] = Proc();
        p[i].pid = q;
        p[i].fd = sv[0];
    }
    void end(int i)
    {
        if (p[i].pid > 0) {
            kill(p[i].pid, SIGKILL);
            waitpid(p[i].pid, nullptr, 0);
        }
        if (p[i].fd >= 0)
            close(p[i].fd);
        p[i] = Proc();
        if (hp == i)
            hp = hs = -1;
    }
    bool ask(int i, const std::string& cmd, std::string& ans)
    {
        char b[700];
        if (write(p[i].fd, cmd.c_str(), cmd.size() + 1) < 0)
            return fail("process-died", "the process that executes " + cmd + " is gone");
        struct pollfd pf = { p[i].fd, POLLIN, 0 };
        int pr = poll(&pf, 1, 20000);
        ssize_t n = pr > 0 ? read(p[i].fd, b, sizeof b) : -1;
        if (n <= 0) {
            int st = 0;
            if (pr > 0)
                waitpid(p[i].pid, &st, 0);
            p[i].pid = pr > 0 ? 0 : p[i].pid;
            return fail(pr > 0 ? "crash" : "hang", strf("process %d in \"%s\": %s", i, cmd.c_str(), pr > 0 ? strf("ended with status 0x%x", st).c_str() : "no answer"));
        }
        ans.assign(b, strnlen(b, n));
        return true;
    }
    // what a new process finds
    bool contents(const std::string& when)
    {
        drop_all();
        Cfg c = g;
        MBConfig mb;
        fill_config(mb, c, dir, CONSTS::ACCESS_MODE_READER, 0x7266);
        DB h(mb);
        std::string why;
        if (h.Status() != MBError::SUCCESS)
            return fail("reader-open", when + ", a reader does not open: " + es(h.Status()));
        bool ok = same_contents(&h, m, why);
        h.Close();
        drop_all();
        return ok || fail("contents", when + ", " + why);
    }
    bool is_writer(char k) { return k == 'W' || k == 'A' || k == 'k' || k == 'b' || k == 'n'; }
    // after an attempt to open slot sl of process pi, which returned st
    bool opened(int pi, int sl, char k, int st, const std::string& what)
    {
        p[pi].status[sl] = st;
        if (!is_writer(k)) {
            if (k == 'D' || k == 'R' || k == 'Q')
                return st == MBError::SUCCESS || fail("reader-open", what + strf(" fails with status %d", st));
            return true;
        }
        if (hp >= 0) {
            if (st == MBError::SUCCESS)
                return fail("two-writers", what + strf(" succeeds while slot %d of process %d holds the database", hs, hp));
            if ((k == 'W' || k == 'A') && st != MBError::WRITER_EXIST)
                return fail("status", what + strf(" fails with status %d, not WRITER_EXIST", st));
            return true;
        }
        if (k == 'W' || k == 'A') {
            if (st != MBError::SUCCESS)
                return fail("no-writer", what + strf(" fails with status %d although nobody holds the database", st));
            hp = pi;
            hs = sl;
            return true;
        }
        if (st == MBError::SUCCESS)
            return fail("bad-config-opens", what + " succeeds");
        return true;
    }
    bool act(const std::string& a, bool& legal)
    {
        legal = true;
        int pi = a[1] - '0';
        Proc& q = p[pi];
        std::string ans;
        char c = a[3];
        if (c == 'o') {
            char k = a[8];
            int sl = !q.kind[0] ? 0 : !q.kind[1] ? 1 : -1;
            if (sl < 0 || (k == 'D' && (sl == 0 && !q.kind[1]))) {
                legal = false;
                return true;
            }
            if (k == 'D' && (q.kind[!sl] == 'n' || q.kind[!sl] == 'd')) { // it has no path
                legal = false;
                return true;
            }
            if (q.pid <= 0)
                spawn(pi);
            if (!ask(pi, strf("o%d%c", sl, k), ans))
                return false;
            q.kind[sl] = k;
            int st = atoi(ans.c_str());
            if (k == 'D' && (q.kind[!sl] == 'k' || q.kind[!sl] == 'b')) { // a reader with a configuration that does not fit
                q.status[sl] = st;
                q.kind[sl] = 'd';
                return true;
            }
            return opened(pi, sl, k, st, a);
        }
        if (c == 'c') {
            int sl = a[9] - '0';
            if (!q.kind[sl]) {
                legal = false;
                return true;
            }
            if (!ask(pi, strf("c%d", sl), ans))
                return false;
            q.kind[sl] = 0;
            if (hp == pi && hs == sl)
                hp = hs = -1;
            return true;
        }
        if (c == 'a') { // slot = other slot: closes it, then opens with the other's configuration
            int sl = a[10] - '0', ot = !sl;
            if (!q.kind[0] || !q.kind[1] || q.kind[ot] == 'n' || q.kind[ot] == 'D' || q.kind[ot] == 'd') {
                legal = false;
                return true;
            }
            if (hp == pi && hs == sl)
                hp = hs = -1;
            if (!ask(pi, strf("=%d", sl), ans))
                return false;
            q.kind[sl] = q.kind[ot];
            return opened(pi, sl, q.kind[sl], atoi(ans.c_str()), a);
        }
        // kill
        if (q.pid <= 0) {
            legal = false;
            return true;
        }
        end(pi);
        return true;
    }
    bool mark(const std::string& when)
    {
        if (hp < 0)
            return true;
        std::string key = strf("mark%d", marks++ % 5), ans;
        count(C_PROBES);
        if (!ask(hp, strf("u%d%s", hs, key.c_str()), ans))
            return false;
        if (ans != "0")
            return fail("writer-refused", when + strf(", an update through the handle that holds the database (slot %d of process %d) returns %s", hs, hp, ans.c_str()));
        m[key] = key + "-value";
        return contents(when + ", and an update through the writer");
    }
    ~Site()
    {
        end(0);
        end(1);
    }
};
static Cfg base_cfg()
{
    Cfg c = cfg_small();
    c.qsize = 4;
    return c;
}
static void build(const std::string& dir, const Cfg& g, Model& m, int n, int vlen)
{
    drop_all();
    MBConfig mb;
    fill_config(mb, g, dir, CONSTS::ACCESS_MODE_WRITER, 1);
    DB d(mb);
    if (d.Status() != MBError::SUCCESS)
        abort();
    for (int i = 0; i < n; i++) {
        std::string k = strf("base%d", i), v = strf("value%d-", i) + std::string(vlen, 'a' + i % 26);
        if (d.Add(k, v, true) != MBError::SUCCESS)
            abort();
        m[k] = v;
    }
    if (n > 4) { // leave some garbage
        d.Remove("base3");
        m.erase("base3");
        d.Add(std::string("base4"), std::string("short"), true);
        m["base4"] = "short";
    }
    d.Close();
    drop_all();
}
static std::string fresh_dir(const char* nm)
{
    std::string d = worker_dir() + "/" + nm;
    rm_tree(d);
    mkdir(d.c_str(), 0755);
    return d;
}
static void run_c19(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& t = themes[ti];
    count(C_CASES);
    Site s;
    s.g = base_cfg();
    s.dir = fresh_dir("own");
    build(s.dir, s.g, s.m, 4, 8);
    bool ok = true;
    std::string done;
    for (size_t i = 0; ok && i < seq.size(); i++) {
        bool legal;
        const std::string& a = t.ops[seq[i]].k;
        if (i == 0 && a[1] == '1') { // the processes are alike
            out.aux = 1;
            return;
        }
        count(C_OPS);
        ok = s.act(a, legal);
        if (!legal) {
            out.aux = 1;
            count(C_PRUNED);
            return;
        }
        done = a;
        if (ok && i + 1 < seq.size() && s.hp >= 0)
            ok = s.mark("after " + a);
    }
    if (ok)
        ok = s.contents("after " + (done.empty() ? "creating" : done));
    // canonical state: what each process holds, whatever its number
    if (ok) {
        std::string st[2];
        for (int i = 0; ok && i < 2; i++) {
            if (s.p[i].pid > 0)
                ok = s.ask(i, "s", st[i]);
            st[i] += s.hp == i ? strf(" H%d", s.hs) : "";
            st[i] += strf(" %d%d", s.p[i].kind[0] ? s.p[i].status[0] : -1, s.p[i].kind[1] ? s.p[i].status[1] : -1);
        }
        std::string q = std::min(st[0], st[1]) + "|" + std::max(st[0], st[1]) + (s.m.count("mark0") ? "m" : "");
        out.hash = hash_bytes(q.data(), q.size());
        note_distinct(out.hash);
    }
    // no other handle can write
    bool async = false;
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++)
            async |= s.hp == i && s.hs == k && s.p[i].kind[k] == 'A';
    for (int i = 0; ok && i < 2; i++)
        for (int k = 0; ok && k < 2; k++) {
            char kd = s.p[i].kind[k];
            if (!kd || (s.hp == i && s.hs == k))
                continue;
            std::string ans, what = strf("updates through slot %d of process %d (%c, status %d)", k, i, kd, s.p[i].status[k]);
            bool reads = s.p[i].status[k] == MBError::SUCCESS;
            // through the queue a reader may ask the asynchronous writer
            ok = s.ask(i, strf("m%d%c", k, reads && async ? '-' : 'q'), ans);
            count(C_PROBES);
            if (ok && (!reads || kd == 'Q'))
                for (size_t z = 0; ok && z < ans.size(); z++)
                    if (ans.compare(z, 2, "=0") == 0 && (z + 2 == ans.size() || ans[z + 2] == ' '))
                        ok = s.fail("accepted", what + ": " + ans);
            ok = ok && s.contents("after " + what + ": " + ans);
            for (auto& e : s.m) {
                if (!ok || !reads)
                    break;
                std::string v;
                ok = s.ask(i, strf("r%d", k) + e.first, v);
                if (ok && v != "0 " + e.second)
                    ok = s.fail("handle-reads", strf("slot %d of process %d finds ", k, i) + e.first + " as " + v);
            }
        }
    if (ok)
        ok = s.mark("after " + done + " and updates through the other handles");
    if (ok && s.hp >= 0) { // once it dies, another can write
        int h = s.hp;
        s.end(h);
    }
    if (ok) { // a new process can write as soon as nobody holds the database
        for (int i = 0; i < 2 && ok; i++) {
            std::string ans;
            Proc& q = s.p[i];
            if (q.pid > 0 && q.kind[0] && q.kind[1])
                continue;
            bool legal;
            ok = s.act(strf("P%d open W", i), legal) && s.mark(strf("after a final open in process %d", i));
            if (ok && s.hp >= 0) {
                int sl = s.hs;
                ok = s.act(strf("P%d close %d", i, sl), legal);
            }
        }
    }
    if (!ok) {
        std::string h;
        for (size_t i = 0; i < seq.size(); i++)
            h += (i ? " ; " : "") + t.ops[seq[i]].k;
        out.fail("C19/" + s.kind, "[" + h + "]: " + s.err);
    }
}

// ---------------------------------------------------------------- C20 -------
struct Dim {
    const char* name;
    std::vector<std::pair<std::string, std::function<void(MBConfig&, const Cfg&)>>> alt; // besides the database's own
};
static std::vector<Dim> dims()
{
    std::vector<Dim> d;
#define SET(x) [](MBConfig & c, const Cfg& g) { (void)c; (void)g; x; }
    d.push_back({ "flags", { { "prefix-cache", SET(c.options ^= CONSTS::OPTION_PREFIX_CACHE) }, { "jemalloc", SET(c.options ^= CONSTS::OPTION_JEMALLOC) }, { "sync", SET(c.options ^= CONSTS::SYNC_ON_WRITE) }, { "sliding-window", SET(c.options ^= CONSTS::USE_SLIDING_WINDOW) }, { "memory-only", SET(c.options ^= CONSTS::MEMORY_ONLY_MODE) }, { "read-only", SET(c.options ^= CONSTS::READ_ONLY_DB) } } });
    d.push_back({ "keep", { { "no", SET(c.jemalloc_keep_db = !c.jemalloc_keep_db) } } });
    d.push_back({ "index-block", { { "0", SET(c.block_size_index = 0) }, { "x2", SET(c.block_size_index = 2 * g.bsi) }, { "/2", SET(c.block_size_index = g.bsi / 2) }, { "1000", SET(c.block_size_index = 1000) }, { "4096", SET(c.block_size_index = 4096) } } });
    d.push_back({ "data-block", { { "0", SET(c.block_size_data = 0) }, { "x2", SET(c.block_size_data = 2 * g.bsd) }, { "/2", SET(c.block_size_data = g.bsd / 2) }, { "1000", SET(c.block_size_data = 1000) }, { "4096", SET(c.block_size_data = 4096) } } });
    d.push_back({ "index-cap", { { "0", SET(c.memcap_index = 0) }, { "1", SET(c.memcap_index = 1) }, { "block", SET(c.memcap_index = g.bsi) }, { "1TB", SET(c.memcap_index = 1ull << 40) } } });
    d.push_back({ "data-cap", { { "0", SET(c.memcap_data = 0) }, { "1", SET(c.memcap_data = 1) }, { "block", SET(c.memcap_data = g.bsd) }, { "1TB", SET(c.memcap_data = 1ull << 40) } } });
    d.push_back({ "bucket", { { "0", SET(c.num_entry_per_bucket = 0) }, { "-1", SET(c.num_entry_per_bucket = -1) }, { "7", SET(c.num_entry_per_bucket = 7) }, { "8", SET(c.num_entry_per_bucket = 8) }, { "100000", SET(c.num_entry_per_bucket = 100000) } } });
    d.push_back({ "queue", { { "0", SET(c.queue_size = 0) }, { "1", SET(c.queue_size = 1) }, { "+1", SET(c.queue_size = g.qsize + 1) }, { "x2", SET(c.queue_size = g.qsize * 2) }, { "max+1", SET(c.queue_size = MB_MAX_NUM_SHM_QUEUE_NODE + 1) } } });
    d.push_back({ "index-blocks", { { "0", SET(c.max_num_index_block = 0) }, { "1", SET(c.max_num_index_block = 1) }, { "2000", SET(c.max_num_index_block = 2000) } } });
    d.push_back({ "data-blocks", { { "0", SET(c.max_num_data_block = 0) }, { "1", SET(c.max_num_data_block = 1) }, { "2000", SET(c.max_num_data_block = 2000) } } });
    d.push_back({ "data-size", { { "max+1", SET(c.data_size = CONSTS::MAX_DATA_SIZE + 1) } } });
    return d;
}
static const char* MODES[] = { "reader", "writer", "async-writer" };
struct Pick {
    int kind, mode, after; // database, mode, what follows: 0 a new process, 1 the same process
    std::vector<std::pair<int, int>> dev;
};
static std::vector<std::string> DBS;
static std::vector<Dim> DIMS;
static std::string pick_str(const Pick& p)
{
    std::string s = DBS[p.kind] + " " + MODES[p.mode];
    for (auto& d : p.dev)
        s += std::string(" ") + DIMS[d.first].name + "=" + DIMS[d.first].alt[d.second].first;
    return s + (p.after ? " same-process" : "");
}
static std::vector<Pick> picks(int k)
{
    std::vector<Pick> v;
    for (int kind = 0; kind < (int)DBS.size(); kind++)
        for (int mode = 0; mode < 3; mode++) {
            std::vector<std::pair<int, int>> dev;
            std::function<void(int)> rec = [&](int from) {
                for (int after = 0; after < 2; after++)
                    v.push_back({ kind, mode, after, dev });
                if ((int)dev.size() == k)
                    return;
                for (int d = from; d < (int)DIMS.size(); d++) {
                    if (std::string(DIMS[d].name) == "keep" && DBS[kind] != "jemalloc")
                        continue;
                    for (int a = 0; a < (int)DIMS[d].alt.size(); a++) {
                        dev.push_back({ d, a });
                        rec(d + 1);
                        dev.pop_back();
                    }
                }
            };
            rec(0);
        }
    return v;
}
static Cfg db_cfg(const std::string& n)
{
    Cfg c = cfg_of(n == "jemalloc" ? "keep" : n == "empty" ? "default" : n);
    c.qsize = 4;
    return c;
}
struct Img {
    Model m;
    std::map<std::string, std::vector<std::pair<size_t, std::string>>> files; // non-zero pages
    std::map<std::string, size_t> size;
};
static std::map<std::string, Img> imgs;
static std::vector<std::string> list_dir(const std::string& d)
{
    std::vector<std::string> v;
    DIR* dp = opendir(d.c_str());
    while (dirent* e = dp ? readdir(dp) : nullptr)
        if (e->d_name[0] != '.')
            v.push_back(e->d_name);
    if (dp)
        closedir(dp);
    std::sort(v.begin(), v.end());
    return v;
}
static Img& image(const std::string& n)
{
    Img& im = imgs[n];
    if (!im.size.empty())
        return im;
    std::string d = fresh_dir("img");
    build(d, db_cfg(n), im.m, n == "empty" ? 0 : n == "multi" ? 40 : 12, n == "multi" ? 60 : 20);
    for (auto& f : list_dir(d)) {
        std::string s = read_file(d + "/" + f);
        im.size[f] = s.size();
        static const std::string zero(4096, '\0');
        for (size_t o = 0; o < s.size(); o += 4096) {
            std::string pg = s.substr(o, 4096);
            if (pg != zero.substr(0, pg.size()))
                im.files[f].push_back({ o, pg });
        }
    }
    rm_tree(d);
    return im;
}
static void lay(const Img& im, const std::string& d)
{
    for (auto& f : im.size) {
        int fd = open((d + "/" + f.first).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, f.second))
            abort();
        auto it = im.files.find(f.first);
        if (it != im.files.end())
            for (auto& pg : it->second)
                if (pwrite(fd, pg.second.data(), pg.second.size(), pg.first) < 0)
                    abort();
        close(fd);
    }
}
// the database as its owner finds it afterwards
static bool owner_finds(const std::string& dir, const Cfg& g, const Model& m, bool same, std::string& kind, std::string& why)
{
    if (!same)
        drop_all();
    {
        MBConfig c;
        fill_config(c, g, dir, CONSTS::ACCESS_MODE_READER, 0x7266);
        DB h(c);
        if (h.Status() != MBError::SUCCESS) {
            kind = "reader-after";
            why = strf("afterwards a reader with the right configuration does not open: status %d", h.Status());
            return false;
        }
        if (!same_contents(&h, m, why)) {
            kind = "lost";
            why = "afterwards a reader with the right configuration finds " + why;
            return false;
        }
        h.Close();
    }
    if (!same)
        drop_all();
    MBConfig c;
    fill_config(c, g, dir, CONSTS::ACCESS_MODE_WRITER, 0x7266);
    DB h(c);
    if (h.Status() != MBError::SUCCESS) {
        kind = "writer-after";
        why = strf("afterwards the writer with the right configuration does not open: status %d", h.Status());
        return false;
    }
    Model w = m;
    if (!same_contents(&h, w, why)) {
        kind = "lost";
        why = "afterwards the writer with the right configuration finds " + why;
        return false;
    }
    for (auto& k : { "base1", "base", "other-key" }) {
        w[k] = std::string(k) + "-changed";
        int rc = h.Add(k, w[k], true);
        if (rc) {
            kind = "update-after";
            why = strf("afterwards adding %s returns %d", k, rc);
            return false;
        }
    }
    if (w.count("base2")) {
        h.Remove("base2");
        w.erase("base2");
    }
    if (!same_contents(&h, w, why)) {
        kind = "update-after";
        why = "afterwards the writer, after three updates, finds " + why;
        return false;
    }
    h.Close();
    return true;
}
static void run_config(const Pick& p, CaseOut& out)
{
    count(C_CASES);
    Cfg g = db_cfg(DBS[p.kind]);
    Img& im = image(DBS[p.kind]);
    std::string dir = fresh_dir("db");
    lay(im, dir);
    drop_all();
    MBConfig c;
    int mode = p.mode == 0 ? CONSTS::ACCESS_MODE_READER : p.mode == 1 ? CONSTS::ACCESS_MODE_WRITER : CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE;
    fill_config(c, g, dir, mode, 0x6f70);
    for (auto& d : p.dev)
        DIMS[d.first].alt[d.second].second(c, g);
    bool mem = c.options & CONSTS::MEMORY_ONLY_MODE;
    if (mem && p.after) // another database under the same name in one process
        return;
    count(C_CFG);
    std::string kind, why;
    Model m = im.m;
    int st;
    bool ok = true;
    {
        DB h(c);
        st = h.Status();
        count(st == MBError::SUCCESS ? C_OPENED : C_REFUSED);
        // an allocator-managed database is reset by a writer that does not ask to keep it
        if (st == MBError::SUCCESS && p.mode && (c.options & CONSTS::OPTION_JEMALLOC) && !c.jemalloc_keep_db && !mem)
            m.clear();
        if (st == MBError::SUCCESS && p.mode != 2) {
            bool few = false; // fewer blocks than the database has: entries beyond may be refused, not misread
            for (auto& d : p.dev)
                few |= strstr(DIMS[d.first].name, "-blocks") && DIMS[d.first].alt[d.second].first == "1";
            if (few && !mem) {
                for (auto& e : m) {
                    std::string v;
                    int rc = find(&h, e.first, v);
                    if (rc == MBError::NOT_EXIST || (rc == MBError::SUCCESS && v != e.second)) {
                        ok = false;
                        why = "find(" + e.first + ") " + es(rc) + " " + show(v);
                    }
                }
            } else
                ok = same_contents(&h, mem ? Model() : m, why);
            if (!ok) {
                kind = "misread";
                why = "the handle opens, but finds " + why;
            }
        }
        if (p.mode != 2 && st != MBError::SUCCESS) {
            std::string v;
            if (find(&h, "base0", v) == MBError::SUCCESS) {
                kind = "unopened-reads";
                why = strf("the open fails with status %d, yet lookups succeed", st);
                ok = false;
            }
        }
        if (p.dev.empty() && st != MBError::SUCCESS && !(p.mode == 2 && DBS[p.kind] == "jemalloc")) {
            kind = "refused";
            why = strf("the open with the database's own configuration fails with status %d", st);
            ok = false;
        }
        h.Close();
    }
    if (ok)
        ok = owner_finds(dir, g, m, p.after, kind, why);
    out.hash = hmix(hmix(p.kind * 8 + p.mode, st), hash_bytes(kind.data(), kind.size()));
    std::string id = pick_str(p);
    note_distinct(hash_bytes(id.data(), id.size()));
    drop_all();
    if (!ok)
        out.fail("C20/" + kind, "open " + pick_str(p) + strf(" (status %d): ", st) + why);
}
// Damaged or foreign header, missing files: a reader.
struct Harm {
    int kind, mode; // database; 0 reader, 1 read-only reader
    char what;      // v version byte, t header cut, m files missing
    int a, b;
};
static std::vector<Harm> harms(bool T)
{
    std::vector<Harm> v;
    for (int kind = 0; kind < (int)DBS.size(); kind++)
        for (int mode = 0; mode < 2; mode++) {
            if (kind == 0 || T)
                for (int a = 0; a < 6; a++)
                    for (int b = 0; b < 256; b++)
                        v.push_back({ kind, mode, 'v', a, b });
            else
                for (int a = 0; a < 6; a++)
                    for (int b : { 0, 1, 2, 6, 7, 8, 255 })
                        v.push_back({ kind, mode, 'v', a, b });
            for (int a = 0; a < 4096; a += a < 600 || a > 2040 ? 1 : T ? 1 : 8)
                if (T || a < 600 || a > 3500 || a % 8 == 0)
                    v.push_back({ kind, mode, 't', a, 0 });
            if (DBS[kind] != "pc4") // a reader with the prefix cache creates the data file
                for (int a = 1; a < 8; a++)
                    v.push_back({ kind, mode, 'm', a, 0 });
        }
    return v;
}
static std::string harm_str(const Harm& h)
{
    return DBS[h.kind] + (h.mode ? " read-only-reader " : " reader ") + (h.what == 'v' ? strf("version byte %d set to %d", h.a, h.b) : h.what == 't' ? strf("header cut to %d bytes", h.a) : strf("without files %d", h.a));
}
static void run_harm(const Harm& p, CaseOut& out)
{
    count(C_CASES);
    Cfg g = db_cfg(DBS[p.kind]);
    Img& im = image(DBS[p.kind]);
    std::string dir = fresh_dir("db"), hf = dir + "/_mabain_h", kind, why;
    lay(im, dir);
    drop_all();
    std::string head = read_file(hf), bad = head;
    bool same = false;
    if (p.what == 'v') {
        same = (uint8_t)bad[p.a] == p.b;
        bad[p.a] = p.b;
        write_file(hf, bad);
    } else if (p.what == 't') {
        bad.resize(p.a);
        write_file(hf, bad);
    } else {
        const char* f[] = { "_mabain_h", "_mabain_i0", "_mabain_d0" };
        for (int i = 0; i < 3; i++)
            if (p.a & 1 << i)
                unlink((dir + "/" + f[i]).c_str());
    }
    auto before = list_dir(dir);
    std::vector<std::string> data;
    for (auto& f : before)
        data.push_back(f.find("_q") == std::string::npos ? read_file(dir + "/" + f) : "");
    bool ok = true;
    int st;
    {
        MBConfig c;
        fill_config(c, g, dir, CONSTS::ACCESS_MODE_READER | (p.mode ? CONSTS::READ_ONLY_DB : 0), 0x6f70);
        c.block_size_index = c.block_size_data = 0; // as readers do
        DB h(c);
        st = h.Status();
        count(C_DAMAGED);
        if (st == MBError::SUCCESS) {
            if (p.what == 'v' && !same) {
                ok = false;
                kind = "foreign-version";
                why = "the open succeeds";
            } else
                for (auto& e : im.m) { // missing data may be reported, not misread
                    std::string v;
                    int rc = find(&h, e.first, v);
                    if (rc == MBError::NOT_EXIST || (rc == MBError::SUCCESS && v != e.second)) {
                        ok = false;
                        kind = "misread";
                        why = "the open succeeds, and find(" + e.first + ") gives " + es(rc) + " " + show(v);
                        break;
                    }
                }
        } else {
            count(C_DAMERR);
            if (same) {
                ok = false;
                kind = "refused";
                why = "the open fails";
            }
        }
        h.Close();
    }
    drop_all();
    if (ok && list_dir(dir) != before && p.what != 'm') {
        ok = false;
        kind = "files";
        why = "the reader created or removed files";
    }
    if (ok) { // the damage repaired, everything is there
        write_file(hf, head);
        if (p.what == 'm')
            lay(im, dir);
        ok = owner_finds(dir, g, im.m, false, kind, why);
    }
    std::string id = harm_str(p);
    note_distinct(hash_bytes(id.data(), id.size()));
    drop_all();
    if (!ok)
        out.fail("C20/" + kind, "open " + harm_str(p) + strf(" (status %d): ", st) + why);
}
static int c20()
{
    Report rep;
    bool T = thorough();
    DIMS = dims();
    DBS = { "default", "multi", "empty", "pc4", "jemalloc" };
    pool_recycle = 60; // the arenas of closed databases take up address space
    for (auto& d : DBS)
        image(d);
    double t0 = now();
    bool cut = false;
    std::vector<Pick> ps = picks(opt.getl("dev", T ? 3 : 2));
    std::vector<Harm> hs = harms(T);
    if (!opt.replay.empty()) {
        std::string want = opt.replay.substr(0, opt.replay.find('|'));
        for (auto& p : picks(3))
            if (pick_str(p) == want)
                run_pool("replay", 1, [&](uint64_t, CaseOut& o) { run_config(p, o); }, [&](uint64_t) { return pick_str(p) + "|"; }, false);
        for (auto& p : harms(true))
            if (harm_str(p) == want)
                run_pool("replay", 1, [&](uint64_t, CaseOut& o) { run_harm(p, o); }, [&](uint64_t) { return harm_str(p) + "|"; }, false);
        return finish(rep);
    }
    PoolResult r = run_pool("configurations", ps.size(), [&](uint64_t i, CaseOut& o) { run_config(ps[i], o); }, [&](uint64_t i) { return pick_str(ps[i]) + "|"; }, false, 60);
    cut |= r.cut;
    if (opt.verbose)
        fprintf(term, "configurations %zu %.1fs\n", ps.size(), now() - t0);
    r = run_pool("damages", hs.size(), [&](uint64_t i, CaseOut& o) { run_harm(hs[i], o); }, [&](uint64_t i) { return harm_str(hs[i]) + "|"; }, false, 60);
    cut |= r.cut;
    if (opt.verbose)
        fprintf(term, "damages %zu %.1fs\n", hs.size(), now() - t0);
    rep.notes.push_back(strf("%zu configurations of %zu databases, %zu damages", ps.size(), DBS.size(), hs.size()));
    for (size_t i : { ps.size() / 7, ps.size() / 2, ps.size() * 6 / 7 })
        sample("open " + pick_str(ps[i]));
    sample("open " + harm_str(hs[hs.size() / 2]));
    rep.num["evaluations"] = shared->ctr[C_CASES];
    rep.num["distinct_nontrivial"] = distinct_count();
    rep.num["opens_that_succeeded"] = shared->ctr[C_OPENED];
    rep.num["opens_refused"] = shared->ctr[C_REFUSED];
    rep.num["damaged_databases"] = shared->ctr[C_DAMAGED];
    rep.num["damages_refused"] = shared->ctr[C_DAMERR];
    rep.num["cut"] = cut;
    rep.num["wall"] = now() - t0;
    return finish(rep);
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    DB::SetLogLevel(0);
    signal(SIGPIPE, SIG_IGN);
    if (opt.prop == "C20")
        return c20();
    Theme t;
    t.name = "handles";
    for (int p = 0; p < 2; p++) {
        for (const char* k = KINDS; *k; k++)
            t.ops.push_back(Op { 'Z', strf("P%d open %c", p, *k), "", 0 });
        for (int s = 0; s < 2; s++)
            t.ops.push_back(Op { 'Z', strf("P%d close %d", p, s), "", 0 });
        for (int s = 0; s < 2; s++)
            t.ops.push_back(Op { 'Z', strf("P%d assign %d", p, s), "", 0 });
        t.ops.push_back(Op { 'Z', strf("P%d kill", p), "", 0 });
    }
    t.depth = thorough() ? 5 : 4;
    themes.push_back(t);
    report_extra = [](Report& r) {
        r.num["updates_tried"] = shared->ctr[C_PROBES];
        r.num["sequences_not_applicable"] = shared->ctr[C_PRUNED];
    };
    return explore(run_c19);
}
