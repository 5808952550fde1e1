// Engine Q: the asynchronous update queue. Producers (each on its own handle)
// and the real asynchronous writer thread run under the controlled scheduler;
// every interleaving of their accesses to the queue and its indices is
// explored. The map, watched through another handle after every step of the
// writer, must take exactly the states that the accepted updates produce when
// each is applied once, in an order that respects which was accepted before
// which was begun.
#include "world.h"
#include "cosched.h"
#include "themes.h"
#include "trace.h"
#include "shm_queue_mgr.h"
#include <sys/ioctl.h>
using namespace mc;

enum { C_SCEN = 0, C_EXEC = 4, C_STATES, C_TRANS, C_CUT, C_ACC, C_REJ, C_KILL, C_MAXE, C_PROBES, C_RCOBS, C_EVICTED };

struct QOp {
    char t; // a add, n add without overwriting, r remove, X remove all, C collect, o add to another database
    int k;  // key
};
struct Scenario {
    std::string name;
    int qsize = 2;
    uint32_t start = 0;
    int fill = 0;       // other entries in the database
    int garbage = 0;    // replaced values, for collections to have work
    int local = 0;      // bit per producer: in the writer's process
    int kills = 0;
    int preempt = -1;
    bool startup = false;
    bool restart = false; // the writer is closed and opened again meanwhile
    bool other = false;   // the program uses a second database as well ('o')
    std::vector<std::vector<QOp>> prog;
};
static std::vector<Scenario> scen;
static Cfg CFG;
static std::string opstr(const QOp& o) { return strf("%c%d", o.t, o.k); }
static std::string prog_str(const Scenario& s)
{
    std::string r;
    for (size_t i = 0; i < s.prog.size(); i++) {
        r += r.empty() ? "" : " || ";
        for (auto& o : s.prog[i])
            r += opstr(o) + " ";
    }
    return r;
}
static const char* KEYS[] = { "ka", "kb", "kcc", "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10" };
enum { NK = 3 };
typedef std::vector<std::string> QState; // value per key, "" = absent

struct Rec { // one update
    int prod;
    QOp op;
    std::string v;
    uint64_t begin = 0, end = ~0ull;
    int status = -1; // 0 accepted, 1 refused, 2 unknown (died)
    int err = 0;
};

struct QSched : CoSched {
    World* obs = nullptr;
    DB* watcher = nullptr;
    MBData prefix; // one result object for all lookups
    bool dirty = false;
    std::vector<QState> seq;
    int nkeys = NK;
    const Model* fill = nullptr; // entries no update touches
    std::string err;
    int writer = -1;
    AsyncWriter* real = nullptr;
    void observe()
    {
        Rt* k = rt;
        CoSched* c = cs;
        rt = nullptr;
        cs = nullptr;
        QState o;
        if (watcher->dict->GetHeaderPtr()->rc_root_offset.load())
            count(C_RCOBS);
        for (int i = 0; i < nkeys; i++) {
            MBData d;
            int r = watcher->Find(KEYS[i], strlen(KEYS[i]), d);
            if (r == MBError::SUCCESS)
                o.push_back(val_of(d));
            else {
                o.push_back("");
                if (r != MBError::NOT_EXIST)
                    err = strf("Find(%s) returned %s", KEYS[i], es(r));
            }
            // the longest stored prefix of a key that is there is the key itself
            std::string longer = std::string(KEYS[i]) + "~";
            for (int x = 0; x < 2 && !o.back().empty(); x++) {
                int pr = watcher->FindLongestPrefix(longer.data(), (int)longer.size() - x, prefix);
                std::string v = pr == MBError::SUCCESS ? val_of(prefix) : std::string(es(pr));
                if (v != o.back() || prefix.match_len != (int)longer.size() - 1)
                    err = strf("FindLongestPrefix(%.*s) gives %s (%d bytes match) where Find(%s) gives %s", (int)longer.size() - x, longer.c_str(), v.c_str(), pr == MBError::SUCCESS ? prefix.match_len : 0, KEYS[i], o.back().c_str());
            }
        }
        if (fill && !fill->empty()) { // one of them at a time
            auto it = fill->begin();
            std::advance(it, steps % fill->size());
            MBData d;
            int r = watcher->Find(it->first.data(), (int)it->first.size(), d);
            if (r != MBError::SUCCESS || val_of(d) != it->second)
                err = strf("Find(%s) gives %s instead of %s", it->first.c_str(), r == MBError::SUCCESS ? val_of(d).c_str() : es(r), it->second.c_str());
        }
        if (seq.empty() || seq.back() != o) {
            if (logging) {
                std::string s;
                for (int i = 0; i < nkeys; i++)
                    if (!o[i].empty())
                        s += strf(" %s=%s", KEYS[i], o[i].c_str());
                log.push_back("           stored:" + s);
            }
            seq.push_back(o);
        }
        rt = k;
        cs = c;
    }
};

static QState apply(const QState& m, const Rec& r)
{
    QState o = m;
    switch (r.op.t) {
    case 'a': o[r.op.k] = r.v; break;
    case 'n':
        if (o[r.op.k].empty())
            o[r.op.k] = r.v;
        break;
    case 'r': o[r.op.k].clear(); break;
    case 'X':
        for (auto& x : o)
            x.clear();
        break;
    }
    return o;
}
// Is there an order of the accepted updates that gives the observed states?
static bool explains(const std::vector<Rec>& rs, const std::vector<QState>& seq)
{
    size_t n = rs.size();
    std::set<std::pair<uint64_t, size_t>> bad; // (applied set, position) - the map is seq[position]
    std::function<bool(uint64_t, size_t)> go = [&](uint64_t done, size_t at) -> bool {
        bool all = true;
        for (size_t i = 0; i < n; i++)
            if (!(done >> i & 1) && rs[i].status == 0)
                all = false;
        if (all && at + 1 == seq.size())
            return true;
        if (!bad.insert({ done, at }).second)
            return false;
        for (size_t i = 0; i < n; i++) {
            if (done >> i & 1 || rs[i].status == 1)
                continue;
            // everything that ended before this began comes first
            bool ok = true;
            for (size_t j = 0; j < n && ok; j++)
                if (j != i && !(done >> j & 1) && rs[j].status == 0 && rs[j].end < rs[i].begin)
                    ok = false;
            if (!ok)
                continue;
            QState m = apply(seq[at], rs[i]);
            if (m == seq[at]) {
                if (go(done | 1ull << i, at))
                    return true;
            } else if (at + 1 < seq.size() && m == seq[at + 1])
                if (go(done | 1ull << i, at + 1))
                    return true;
        }
        return false;
    };
    return go(0, 0);
}
static std::string obs_str(const QState& o)
{
    std::string s;
    for (size_t i = 0; i < o.size(); i++)
        if (!o[i].empty())
            s += strf("%s%s=%s", s.empty() ? "" : ",", KEYS[i], o[i].c_str());
    return "{" + s + "}";
}

static bool restore(const Image& im, const std::string& dir)
{
    for (auto& f : im) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, (dir + f.first).c_str(), O_RDWR, 0);
        struct stat st;
        if (fd < 0 || fstat(fd, &st) || (size_t)st.st_size != f.second.size()) {
            if (fd >= 0)
                ::close(fd);
            return false;
        }
        if (syscall(SYS_pwrite64, fd, f.second.data(), f.second.size(), 0L) != (long)f.second.size())
            abort();
        ::close(fd);
    }
    return true;
}

static void run_scenario(int si, CaseOut& out)
{
    const Scenario& S = scen[si];
    static std::string wd;
    static pid_t owner;
    if (wd.empty() || owner != getpid()) {
        wd = worker_dir();
        owner = getpid();
    }
    std::string dir = wd + "/q/";
    mkdir(dir.c_str(), 0755);
    rt = nullptr;
    cs = nullptr;
    clear_dir(dir);
    Cfg cfg = CFG;
    cfg.qsize = S.qsize;
    if (S.fill) { // collecting asynchronously needs 1 MB below the region for updates that come meanwhile
        cfg.bsi = cfg.bsd = 65536;
        cfg.maxi = cfg.maxd = 48;
        cfg.bucket = 8;
    }
    // the initial files
    Image im0;
    Model fill, stable;
    {
        DB::ClearResources(dir);
        MBConfig c;
        fill_config(c, cfg, dir, CONSTS::WriterOptions());
        DB w(c);
        if (!w.is_open()) {
            out.fail("open", "cannot create the database");
            return;
        }
        for (int r = 0; r < 1 + S.garbage; r++)
            for (int i = 0; i < S.fill; i++) {
                std::string k = strf("f%c%c%d", 'a' + i % 5, 'k' + i / 5 % 7, i), v = strf("v%d-%d-%s", i, r, std::string(r * 7 + i % 9, 'x').c_str());
                w.Add(k, v, true);
                fill[k] = v;
            }
        w.Add(KEYS[0], "old0", true);
        w.dict->GetHeaderPtr()->queue_index.store(S.start);
        w.dict->GetHeaderPtr()->writer_index = S.start;
        w.Close();
    }
    DB::ClearResources(dir);
    im0 = load_image(dir);
    QSched s;
    s.max_kills = S.kills;
    s.preempt_bound = S.preempt;
    s.max_steps = 4000;
    s.pipe_points = S.restart;
    bool replay = !opt.replay.empty();
    s.logging = replay && !getenv("QDBG");
    uint64_t execs = 0, maxe = opt.getl("execs", thorough() ? 400000 : 30000);
    double t0 = now();
    std::unique_ptr<DB> w;
    std::vector<std::unique_ptr<DB>> prod;
    std::vector<Rec> recs;
    recs.reserve(64);
    int qf = -1, hf = -1;
    std::vector<std::vector<Rec>> plan(S.prog.size());
    for (size_t p = 0; p < S.prog.size(); p++)
        for (size_t i = 0; i < S.prog[p].size(); i++)
            plan[p].push_back({ (int)p, S.prog[p][i], strf("P%zu.%zu", p, i) });
    // Only small buffers occur; emptying tens of thousands of empty lists would take most of the time.
    auto trim = [&](bool on) {
        static std::map<FreeList*, size_t> full;
        for (auto fl : { w->dict->GetFreeList(), w->dict->GetMM()->GetFreeList() })
            if (fl && on) {
                full[fl] = fl->max_num_buffer;
                fl->max_num_buffer = std::min<size_t>(fl->max_num_buffer, 4500);
            } else if (fl && full.count(fl))
                fl->max_num_buffer = full[fl];
        if (!on)
            full.clear();
    };
    auto close_all = [&] {
        if (w && w->is_open())
            trim(false);
        for (auto& d : prod)
            d->Close();
        prod.clear();
        if (w)
            w->Close();
        w.reset();
        DB::ClearResources(dir);
    };
    // another database of the same program, which has no writer at the moment
    std::unique_ptr<DB> other;
    std::string odir = wd + "/other/";
    if (S.other) {
        mkdir(odir.c_str(), 0755);
        clear_dir(odir);
        MBConfig c;
        fill_config(c, cfg, odir, CONSTS::WriterOptions());
        DB(c).Close();
        fill_config(c, cfg, odir, CONSTS::ReaderOptions(), 0x2000);
        other = std::make_unique<DB>(c);
        if (!other->is_open()) {
            out.fail("open", "cannot open the second database");
            return;
        }
    }
    // clients
    auto submit = [&](DB* db, Rec& r) {
        const char* k = KEYS[r.op.k];
        r.begin = s.steps;
        s.op_begin();
        int e = MBError::UNKNOWN_ERROR;
        switch (r.op.t) {
        case 'a': e = db->Add(k, strlen(k), r.v.data(), r.v.size(), true); break;
        case 'n': e = db->Add(k, strlen(k), r.v.data(), r.v.size(), false); break;
        case 'r': e = db->Remove(k, strlen(k)); break;
        case 'X': e = db->RemoveAll(); break;
        case 'o': e = other->Add(k, strlen(k), r.v.data(), r.v.size(), true); break;
        case 'C': e = db->CollectResource(1, 1, MAX_6B_OFFSET, MAX_6B_OFFSET); break;
        case 'E': e = db->CollectResource(0, 0, MAX_6B_OFFSET, S.fill - 6); break;
        case 'G': e = db->CollectResource(1, 1, MAX_6B_OFFSET, S.fill - 6); break;
        }
        s.op_end();
        r.end = s.steps;
        r.err = e;
        r.status = e == MBError::SUCCESS ? 0 : 1;
        if (s.logging)
            s.log.push_back(strf("%-10s %s: %s", s.me()->name.c_str(), opstr(r.op).c_str(), es(e)));
    };
    const std::function<void(int)> produce = [&](int p) {
        for (size_t i = 0; i < S.prog[p].size(); i++) {
            recs.push_back(plan[p][i]);
            submit(prod[p].get(), recs.back());
        }
    };
    bool warm = false;
    const std::function<void()> restart_writer = [&]() {
        w->async_writer->StopAsyncThread();
        delete w->async_writer;
        w->async_writer = nullptr;
        s.real = w->async_writer = AsyncWriter::CreateInstance(w.get());
        for (size_t i = 0; i < s.co.size(); i++)
            if (s.co[i]->name == "writer")
                s.writer = (int)i;
    };
    do {
        if (execs >= maxe || (execs % 64 == 0 && now() > opt.deadline && now() > t0 + 60)) {
            count(C_CUT);
            if (opt.verbose)
                fprintf(stderr, "cut: %s (bound %d)\n", S.name.c_str(), S.preempt);
            break;
        }
        execs++;
        if (execs % 64 == 0)
            heartbeat();
        // Every execution starts from the same files. The handles stay open as long as the files keep their sizes.
        rt = nullptr;
        cs = nullptr;
        bool reuse = w && restore(im0, dir);
        if (!reuse) {
            close_all();
            clear_dir(dir);
            store_image(im0, dir);
            rt_forget_files();
        }
        s.begin();
        s.seq.clear();
        s.err.clear();
        s.nkeys = NK;
        s.dirty = false;
        if (!reuse)
            qf = hf = -1;
        s.in_scope = [&](int f, uint64_t off, size_t) {
            if (qf >= 0 && hf >= 0 && f != qf && f != hf)
                return false;
            if (f != qf && f != hf) {
                std::string b = base_name(rt_path(f));
                if (b.compare(0, 9, "_mabain_q") == 0)
                    qf = f;
                else if (b == "_mabain_h")
                    hf = f;
                else
                    return false;
            }
            if (f == qf)
                return true;
            return off == offsetof(IndexHeader, queue_index) || off == offsetof(IndexHeader, writer_index) || off == offsetof(IndexHeader, rc_flag);
        };
        s.payload = [&](int f, uint64_t) { return f == qf; };
        recs.clear();
        AsyncWriter::writer_instance = nullptr;
        cs = &s;
        rt = &s;
        if (reuse) {
            for (auto fl : { w->dict->GetFreeList(), w->dict->GetMM()->GetFreeList() })
                if (fl && fl->count) {
                    for (size_t i = 0; i < fl->max_num_buffer; i++)
                        if (fl->buffer_free_list[i]->head)
                            fl->buffer_free_list[i]->Clear();
                    fl->count = 0;
                    fl->tot_size = 0;
                }
            for (auto& d : prod)
                d->dict->mbp.Close();
            w->dict->mbp.Close();
            w->async_writer = AsyncWriter::CreateInstance(w.get());
        } else {
            MBConfig c;
            fill_config(c, cfg, dir, CONSTS::WriterOptions() | CONSTS::ASYNC_WRITER_MODE);
            w = std::make_unique<DB>(c);
            if (w->is_open())
                trim(true);
            for (size_t i = 0; i <= S.prog.size() + 1; i++) {
                MBConfig r;
                fill_config(r, cfg, dir, CONSTS::ReaderOptions(), 0x1000 + prod.size());
                prod.push_back(std::make_unique<DB>(r));
            }
        }
        s.writer = (int)s.co.size() - 1;
        AsyncWriter* real = AsyncWriter::writer_instance;
        if (!w->is_open() || !prod.back()->is_open() || s.writer != 0) {
            out.fail("open", "cannot open the database asynchronously");
            rt = nullptr;
            cs = nullptr;
            return;
        }
        IndexHeader* h = w->dict->GetHeaderPtr();
        AsyncNode* q = w->dict->GetAsyncQueuePtr();
        s.watcher = prod[S.prog.size() + 1].get();
        stable = fill;
        for (auto& p : S.prog)
            for (auto& o : p)
                if (o.t == 'X')
                    stable.clear();
                else if (o.t == 'E' || o.t == 'G') // the oldest may go
                    for (auto it = stable.begin(); it != stable.end();)
                        it = atoi(it->second.c_str() + 1) < S.fill - 6 ? stable.erase(it) : std::next(it);
        s.fill = &stable;
        s.scope_hash = [&] {
            uint64_t x = hmix(h->queue_index.load(), h->writer_index);
            x = hmix(x, h->rc_flag.load());
            for (int i = 0; i < S.qsize; i++) {
                AsyncNode& n = q[i];
                x = hmix(x, n.in_use.load() | n.num_reader.load() << 1 | (uint64_t)n.type << 32 | (uint64_t)n.overwrite << 40);
                x = hmix(x, n.key_len * 65536ull + n.data_len);
                x = hash_bytes(n.key, 8, x);
                x = hash_bytes(n.data, 16, x);
            }
            for (auto& o : s.seq)
                for (auto& v : o)
                    x = hash_bytes(v.data(), v.size(), hmix(x, v.size()));
            for (auto& r : recs) {
                uint64_t before = 0; // which updates had ended when this one began
                for (size_t j = 0; j < recs.size(); j++)
                    if (recs[j].end < r.begin)
                        before |= 1ull << j;
                x = hmix(x, before << 12 | (r.prod & 15) << 4 | (r.status + 1));
            }
            for (int64_t v : { (int64_t)h->m_index_offset, (int64_t)h->m_data_offset, (int64_t)h->count, (int64_t)h->pending_data_buff_size, (int64_t)h->pending_index_buff_size, (int64_t)h->num_update })
                x = hmix(x, v);
            int avail = 0;
            for (auto& d : prod) {
                if (d->dict->mbp.fd >= 0)
                    syscall(SYS_ioctl, d->dict->mbp.fd, FIONREAD, &avail);
                x = hmix(x, d->dict->mbp.fd >= 0);
            }
            x = hmix(x, avail);
            return x;
        };
        s.on_private_write = [&](Co* c, int, uint64_t, size_t) { s.dirty = true; };
        s.before_pick = [&] {
            if (s.dirty) {
                s.dirty = false;
                s.observe();
            }
        };
        s.real = real;
        s.on_switch = [&](Co* c) { AsyncWriter::writer_instance = c->remote_tag ? s.real : nullptr; };
        s.observe();
        if (!S.startup) // the writer is waiting for updates
            s.run_until([&] { return s.co[s.writer]->kind == W_POLL && s.co[s.writer]->started; });
        std::vector<int> pid;
        for (size_t p = 0; p < S.prog.size(); p++) {
            int id = s.spawn(strf("producer%zu", p), [&produce, p] { produce((int)p); });
            s.co[id]->killable = S.kills > 0;
            s.co[id]->remote_tag = S.local >> p & 1 ? real : nullptr;
            pid.push_back(id);
        }
        if (S.restart)
            pid.push_back(s.spawn("operator", [&restart_writer] { restart_writer(); }));
        s.max_idle_timeouts = thorough() ? 3 : 2;
        warm = !reuse; // files are mapped, pipes created ... the first time only
        s.branching = !warm;
        s.run_until([&] {
            for (int i : pid)
                if (!s.co[i]->done && !s.co[i]->dead)
                    return false;
            return true;
        });
        s.branching = false;
        s.max_idle_timeouts = 3;
        std::string why, kind;
        if (s.diverged)
            kind = "harness", why = "an execution did not repeat: " + s.why_diverged;
        else if (s.endless)
            kind = "endless", why = "the producers do not get to their ends";
        else if (s.deadlock)
            kind = "deadlock", why = "deadlock";
        for (auto& r : recs) {
            if (r.status < 0) {
                r.status = 2;
                count(C_KILL);
            }
            count(r.status == 0 ? C_ACC : C_REJ);
            if (r.status == 1 && r.err != MBError::TRY_AGAIN && kind.empty())
                kind = "refused", why = opstr(r.op) + " returned " + es(r.err);
        }
        if (kind.empty()) {
            // let the writer finish
            s.co[s.writer]->idle_timeouts = 0;
            s.steps = 1000000;
            s.max_steps = 1010000;
            s.run();
            if (s.seq.size()) {
                std::vector<QState> sq = s.seq;
                if (!explains(recs, sq)) {
                    kind = "applied";
                    why = "the stored states do not follow from the accepted updates:";
                    for (auto& o : sq)
                        why += " " + obs_str(o);
                }
            }
        }
        // updates go on being accepted and applied
        if (kind.empty() && !s.hit_seen) {
            s.nkeys = NK + S.qsize + 2;
            for (auto& o : s.seq)
                o.resize(s.nkeys);
            int accepted = 0, tries = 0;
            int id = s.spawn("probe", [&] {
                for (int j = 0; j < S.qsize + 2; j++) {
                    recs.push_back({ 100, { 'a', NK + j }, strf("probe%d", j) });
                    for (int n = 0; n < 40; n++) {
                        tries++;
                        submit(prod[S.prog.size()].get(), recs.back());
                        if (recs.back().status == 0)
                            break;
                        s.sleep_us(1);
                    }
                    accepted += recs.back().status == 0;
                }
            });
            s.co[s.writer]->idle_timeouts = 0;
            s.max_steps = 1100000;
            s.run();
            count(C_PROBES, tries);
            if (!s.co[id]->done || accepted < S.qsize + 2) {
                kind = "stuck";
                why = strf("only %d of %d later updates were accepted (40 attempts each)", accepted, S.qsize + 2);
            } else {
                s.co[s.writer]->idle_timeouts = 0;
                s.run();
                if (!explains(recs, s.seq)) {
                    kind = "applied-later";
                    why = "the states stored after later updates do not follow from the accepted updates:";
                    for (auto& o : s.seq)
                        why += " " + obs_str(o);
                }
            }
        }
        if (kind.empty() && !s.err.empty())
            kind = "find", why = s.err;
        s.before_pick = nullptr;
        s.max_steps = 2000000;
        if (kind != "deadlock" && kind != "endless") {
            w->async_writer->StopAsyncThread();
            delete w->async_writer;
            w->async_writer = nullptr;
            if (kind.empty() && s.endless)
                kind = "endless", why = "the writer does not stop";
        }
        s.max_steps = 4000;
        rt = nullptr;
        cs = nullptr;
        if (kind.empty() && s.killed_by_pipe)
            kind = "sigpipe", why = "the process gets SIGPIPE when it signals a writer that is closing";
        if (kind.empty() && other) {
            // updates of the other database wait in its queue
            AsyncNode* oq = other->dict->GetAsyncQueuePtr();
            for (auto& r : recs)
                if (r.op.t == 'o' && r.status == 0) {
                    bool found = false;
                    for (int i = 0; i < S.qsize; i++)
                        found |= oq[i].in_use && oq[i].type == MABAIN_ASYNC_TYPE_ADD && std::string(oq[i].data, oq[i].data_len) == r.v;
                    if (!found)
                        kind = "other", why = "an accepted update of another database is not in its queue";
                }
            for (int i = 0; i < S.qsize; i++) {
                oq[i].in_use = false;
                oq[i].num_reader = 0;
            }
            IndexHeader* oh = other->dict->GetHeaderPtr();
            oh->writer_index = oh->queue_index.load();
        }
        if (kind.empty()) {
            // other entries are untouched
            bool cleared = stable.empty();
            if (!cleared)
                for (auto& f : fill) {
                    MBData d;
                    int e = s.watcher->Find(f.first, d);
                    if (e == MBError::NOT_EXIST && !stable.count(f.first)) { // evicted
                        count(C_EVICTED);
                        continue;
                    }
                    if (e != MBError::SUCCESS || val_of(d) != f.second) {
                        kind = "others";
                        why = strf("entry %s=%s not concerned by any update: %s %s", f.first.c_str(), f.second.c_str(), es(e), val_of(d).c_str());
                        break;
                    }
                }
        }
        if (kind == "deadlock" || kind == "endless")
            (void)w.release();
        if (!kind.empty()) {
            std::string rs;
            for (auto& r : recs)
                rs += strf(" P%d:%s=%s", r.prod, opstr(r.op).c_str(), r.status == 0 ? "accepted" : r.status == 1 ? es(r.err) : "died");
            if (replay)
                for (auto& l : s.log)
                    fprintf(term, "  %s\n", l.c_str());
            out.fail(kind, strf("[%s] queue of %d, %s: %s; updates:%s (schedule %llu of this scenario)", S.name.c_str(), S.qsize, prog_str(S).c_str(), why.c_str(), rs.c_str(), (unsigned long long)execs));
            break;
        }
    } while (warm || s.next());
    close_all();
    clear_dir(dir);
    if (other) {
        other->Close();
        other.reset();
        DB::ClearResources(odir);
        clear_dir(odir);
    }
    count(C_SCEN);
    count(C_EXEC, execs);
    count(C_STATES, s.seen.size());
    count(C_TRANS, s.transitions);
    count_max(C_MAXE, execs);
    out.hash = hash_bytes(prog_str(S).data(), prog_str(S).size(), s.seen.size());
    note_distinct(out.hash);
}

static std::vector<QOp> P(const char* s)
{
    std::vector<QOp> v;
    for (; *s; s++)
        if (*s != ' ') {
            QOp o { *s, 0 };
            if (s[1] >= '0' && s[1] <= '9')
                o.k = *++s - '0';
            v.push_back(o);
        }
    return v;
}
struct O {
    int kills = 0, local = 0, fill = 0, preempt = -1;
    uint32_t start = 0;
    bool startup = false, restart = false, other = false;
};
static void add(const std::string& name, int q, std::vector<std::vector<QOp>> prog, O o = O())
{
    Scenario s;
    s.name = strf("%s-%zu", name.c_str(), scen.size());
    s.qsize = q;
    s.prog = prog;
    s.kills = o.kills;
    s.local = o.local;
    s.fill = o.fill;
    s.garbage = o.fill ? 1 : 0;
    s.start = o.start;
    s.preempt = o.preempt;
    s.startup = o.startup;
    s.restart = o.restart;
    s.other = o.other;
    scen.push_back(s);
}
static void select_scenarios()
{
    bool T = thorough();
    std::vector<std::string> one = { "a0", "a1", "r0", "n0", "X" };
    auto PP = [&](const std::string& x) { return P(x.c_str()); };
    if (opt.prop == "C17") {
        O o;
        for (int q : { 1, 2, 3 }) {
            O st;
            st.startup = true;
            for (auto& a : one)
                add("single", q, { PP(a) }, st);
            for (auto& a : one)
                for (auto& b : one)
                    add("seq", q, { PP(a + b) });
        }
        for (int q : { 1, 2, 3 })
            for (auto& a : one)
                for (auto& b : one)
                    if (a <= b || T)
                        add("two", q, { PP(a), PP(b) });
        O wr;
        for (int q : { 1, 2, 3 })
            for (uint32_t st : { 0xfffffffeu, 0xffffffffu, 0x7fffffffu }) {
                wr.start = st;
                wr.preempt = T ? -1 : 2;
                add("wrap", q, { PP("a0a1r0") }, wr);
                add("wrap", q, { PP("a0r0"), PP("a0") }, wr);
            }
        O po;
        po.preempt = T ? 4 : 2;
        for (int q : { 2, 3 })
            for (auto a : { "a0r0", "r0a0", "a0a1", "n0r0", "Xa0" })
                for (auto& b : one)
                    add("two-one", q, { P(a), PP(b) }, po);
        // in the writer's own process
        O lo;
        lo.preempt = T ? 4 : 2;
        for (int q : { 1, 2 }) {
            lo.local = 1;
            for (auto& a : one)
                for (auto& b : one)
                    add("local", q, { PP(a + b) }, lo);
            for (auto a : { "a0a0", "r0a0", "Xa0", "n1r1" })
                for (auto& b : one)
                    add("local-two", q, { P(a), PP(b) }, lo);
            lo.local = 3;
            for (auto& a : one)
                add("local-two", q, { PP("a0r0"), PP(a) }, lo);
        }
        // updates during a collection or an eviction
        O gc;
        gc.fill = 26;
        gc.preempt = T ? 2 : 1;
        for (auto& a : one)
            for (auto& b : one) {
                add("collect", 4, { PP("C" + a + b) }, gc);
                if (T || a <= b)
                    add("collect", 4, { PP("C" + a), PP(b) }, gc);
            }
        for (auto& a : one)
            for (auto& b : one) // the key is in the old tree already
                add("replace", 4, { PP("a0C" + a + b) }, gc);
        for (auto a : { "a0r0a0", "a0Xa1", "n1r1n1", "a1a0r0" })
            add("collect", 6, { PP(std::string("C") + a) }, gc);
        for (auto e : { "E", "G" })
            for (auto& a : one)
                for (auto& b : one) {
                    add("evict", 4, { PP(e + a + b) }, gc);
                    if (T || a <= b)
                        add("evict", 4, { PP(e + a), PP(b) }, gc);
                }
        gc.local = 1;
        for (auto& a : one)
            add("collect-local", 4, { PP("C" + a + "a0") }, gc);
        O ot;
        ot.other = true;
        for (int l : { 0, 1 })
            for (auto& a : one) {
                ot.local = l;
                add("other", 2, { PP("o0" + a) }, ot);
                add("other", 2, { PP(a + "o0") }, ot);
                if (l)
                    add("other", 2, { P("o1"), PP(a) }, ot);
            }
        O re;
        re.restart = true;
        re.preempt = T ? 3 : 1;
        for (int q : { 1, 3 })
            for (auto& a : one)
                for (auto& b : one)
                    if (T || q == 3 || a == b)
                        add("reopen", q, { PP(a + b) }, re);
    }
    if (opt.prop == "C18") {
        O k;
        k.kills = 1;
        for (int q : { 1, 2, 3 }) {
            k.preempt = -1;
            for (auto& a : one)
                add("dies", q, { PP(a) }, k);
            for (auto& a : one)
                add("dies", q, { PP("a1" + a) }, k);
            k.preempt = T ? 3 : 1;
            for (auto& a : one)
                for (auto& b : one)
                    add("dies", q, { PP(a), PP(b) }, k);
            for (auto& a : one)
                add("dies", q, { PP(a), PP("a0r0") }, k);
            if (T) {
                k.kills = 2;
                for (auto& a : one)
                    add("both-die", q, { PP(a), PP("a0r0") }, k);
                k.kills = 1;
            }
        }
        k.fill = 26;
        for (auto& a : one)
            add("dies-collect", 4, { PP("C" + a), PP("a0") }, k);
        k.fill = 0;
        k.start = 0xffffffff;
        for (auto& a : one)
            add("dies-wrap", 3, { PP(a), PP("a0") }, k);
        k.start = 0;
        k.restart = true;
        k.preempt = T ? 1 : 0;
        for (auto& a : one)
            add("dies-reopen", 2, { PP(a), PP("a0") }, k);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    mabain::DB::SetLogLevel(0);
    CFG = Cfg();
    CFG.maxi = CFG.maxd = 16;
    select_scenarios();
    if (opt.getl("preempt", -2) > -2)
        for (auto& x : scen)
            x.preempt = (int)opt.getl("preempt", -1);
    Report rep;
    std::string only = opt.gets("only");
    std::vector<int> ids;
    for (size_t i = 0; i < scen.size(); i++) {
        if (!opt.replay.empty() ? scen[i].name == opt.replay.substr(0, opt.replay.find('|')) : only.empty() || scen[i].name.find(only) != std::string::npos)
            ids.push_back(i);
    }
    auto desc = [&](uint64_t i) { return scen[ids[i]].name + "|" + prog_str(scen[ids[i]]); };
    PoolResult r = run_pool("async", ids.size(), [&](uint64_t i, CaseOut& o) { run_scenario(ids[i], o); }, desc, false, 120);
    for (size_t i = 0; i < ids.size(); i += 1 + ids.size() / 20)
        sample(desc(i));
    rep.num["scenarios"] = shared->ctr[C_SCEN];
    rep.num["executions"] = shared->ctr[C_EXEC];
    rep.num["states"] = shared->ctr[C_STATES];
    rep.num["transitions"] = shared->ctr[C_TRANS];
    rep.num["updates_accepted"] = shared->ctr[C_ACC];
    rep.num["updates_refused"] = shared->ctr[C_REJ];
    rep.num["producers_killed"] = shared->ctr[C_KILL];
    rep.num["states_observed_during_collections"] = shared->ctr[C_RCOBS];
    rep.num["entries_evicted"] = shared->ctr[C_EVICTED];
    rep.num["later_submissions"] = shared->ctr[C_PROBES];
    rep.num["most_executions_of_a_scenario"] = shared->ctr[C_MAXE];
    rep.num["scenarios_cut"] = shared->ctr[C_CUT];
    rep.num["cut"] = r.cut || shared->ctr[C_CUT];
    return finish(rep);
}
