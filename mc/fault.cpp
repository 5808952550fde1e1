// Engine F: every failure point of the last operation of every enumerated
// sequence. The operation is executed once for every system call it makes, with
// that call failing (alone, or with all that follow), on the real library.
#include "themes.h"
#include "fio.h"
using namespace mc;

enum { C_SEQ, C_OPS, C_PRUNED = 3, C_FAULTS, C_FAILED, C_DONE, C_KILLS, C_REFUSED };
static const unsigned OBS = O_FIND | O_PREFIX | O_ITER | O_COUNT;
static std::string wdir()
{
    static std::string wd;
    static pid_t owner;
    if (owner != getpid()) {
        wd = worker_dir() + "/d";
        owner = getpid();
    }
    mkdir(wd.c_str(), 0755);
    return wd;
}
struct Case { // a world with the sequence up to its last operation applied
    std::string dir = wdir();
    World w;
    bool ok;
    Case(Theme& t, const std::vector<uint8_t>& seq, size_t n)
    {
        clear_dir(dir);
        ok = w.open(dir, t.cfg, t.reader);
        for (size_t i = 0; ok && i < t.init.size(); i++)
            ok = w.apply(t.init[i]);
        for (size_t i = 0; ok && i < n; i++)
            ok = w.apply(t.ops[seq[i]]);
    }
    ~Case()
    {
        w.close();
        DB::ClearResources(dir);
        clear_dir(dir);
    }
};
static bool reopens(World& w) { return !(w.cfg.wopt & CONSTS::MEMORY_ONLY_MODE) && (w.cfg.keep || !(w.cfg.wopt & CONSTS::OPTION_JEMALLOC)); }
static bool all_right(World& w, Theme& t, const char* when)
{
    bool ok = w.check(w.w, "writer", OBS, t.queries, t.prefixes);
    if (ok && w.r)
        ok = w.check(w.r, "reader", OBS, t.queries, t.prefixes);
    if (ok) {
        Audit a;
        ok = w.audit(a, true);
    }
    if (!ok)
        w.err = std::string(when) + ": " + w.err;
    return ok;
}
// what must still work after a failure
static bool go_on(World& w, Theme& t, const Op& last)
{
    w.cfg.tolerant = false;
    w.lossy = true; // storage of the failed update may be lost until the next collection
    bool ok = w.apply(last);
    if (!ok)
        w.err = "the same update, repeated without the failure: " + w.err;
    ok = ok && all_right(w, t, "after repeating the update");
    for (auto& o : t.post)
        ok = ok && w.apply(o);
    ok = ok && all_right(w, t, "after further updates");
    return ok && (!reopens(w) || (w.apply(N('c')) && all_right(w, t, "after reopening")));
}
static void report(CaseOut& out, World& w, Theme& t, int ti, const std::vector<uint8_t>& seq, const std::string& how)
{
    if (w.kind.empty())
        return;
    out.fail(w.kind, "[" + t.name + "] " + desc_seq(ti, seq) + how + ": " + w.err);
    out.aux = 1;
}
static bool prune(World& w) // wrong result without any failure: another property's business
{
    if (w.kind.empty())
        return false;
    count(C_PRUNED);
    return true;
}
// ---- C15: updates whose system calls fail ---------------------------------
static void run_fault(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& t = themes[ti];
    count(C_SEQ);
    fio.writes = false; // blocks are allocated when they are created: writing to them does not need space
    if (seq.empty()) {
        Case c(t, seq, 0);
        if (prune(c.w)) {
            out.aux = 1;
            return;
        }
        Audit a;
        c.w.audit(a, false);
        out.hash = hmix(a.hash, ti);
        return;
    }
    const Op& last = t.ops[seq.back()];
    bool inj = strchr("AOR", last.t);
    int nk = 0;
    for (int mode : { FIO_COUNT, FIO_ONCE, FIO_ON }) {
        if (mode != FIO_COUNT && !inj)
            break;
        for (int k = 1; mode == FIO_COUNT ? k == 1 : k <= nk && nk; k++) {
            if (mode == FIO_ON && k == nk)
                break; // the last call alone: as FIO_ONCE
            Case c(t, seq, seq.size() - 1);
            World& w = c.w;
            if (prune(w)) {
                out.aux = 1;
                return;
            }
            int ref0 = w.refused;
            w.cfg.tolerant = mode != FIO_COUNT || t.cfg.tolerant;
            fio.arm(mode, k);
            bool ok = w.apply(last);
            fio.disarm();
            count(C_OPS);
            heartbeat();
            if (mode == FIO_COUNT) {
                nk = fio.n;
                if (!ok && !t.cfg.tolerant) {
                    prune(w);
                    out.aux = 1;
                    return;
                }
                if (w.refused > ref0)
                    count(C_REFUSED);
                w.lossy = t.cfg.tolerant;
                ok = ok && (!t.cfg.tolerant || all_right(w, t, w.refused > ref0 ? "after the refusal" : "after"));
                Audit a;
                w.audit(a, false);
                uint64_t h = hmix(a.hash, ti);
                for (auto& e : w.m)
                    h = hash_bytes(e.first.data(), e.first.size(), hash_bytes(e.second.data(), e.second.size(), h));
                out.hash = h;
                note_distinct(h);
                if (ok && t.cfg.tolerant) { // what is removed can be stored again
                    Model m = w.m;
                    for (auto& e : m) {
                        int r0 = w.refused;
                        ok = ok && w.apply(R(e.first));
                        if (!ok || w.refused > r0)
                            continue; // the removal needs a node itself
                        ok = w.apply(A(e.first, e.second));
                        if (ok && w.refused > r0)
                            ok = w.fail("no-space-for-removed", "an entry was removed, and then there was no space to add it again: " + show(e.first));
                    }
                    ok = ok && all_right(w, t, "after removing and adding each entry");
                    w.cfg.tolerant = true;
                    ok = ok && (!reopens(w) || (w.apply(N('c')) && all_right(w, t, "after reopening")));
                }
                if (!ok)
                    report(out, w, t, ti, seq, "");
            } else {
                count(C_FAULTS);
                std::string how = strf(" with its %d. system call (%s) %s", k, fio.call, mode == FIO_ONCE ? "failing" : "and all later ones failing");
                count(w.refused > ref0 ? C_FAILED : C_DONE);
                w.lossy = true;
                ok = ok && all_right(w, t, w.refused > ref0 ? "after the failure" : "after the update");
                Op again = last;
                if (ok && w.refused == ref0) // it was done in another way: repeating it gives another result
                    again = last.t == 'R' ? A(last.k.empty() ? "q" : last.k, "again") : last.t == 'A' ? R(last.k) : last;
                ok = ok && go_on(w, t, again);
                report(out, w, t, ti, seq, how);
                if (out.failed)
                    return;
            }
        }
    }
}
// ---- C22: backups whose file operations fail, or whose process ends --------
static bool copy_is(World& w, const std::string& bd, bool may_not_open, bool& opened)
{
    char* msg = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int st = in_child([&] {
        DB::ClearResources(w.dir);
        MBConfig c;
        fill_config(c, w.cfg, bd, CONSTS::ACCESS_MODE_READER, 0x7266);
        DB h(c);
        std::string why;
        if (!h.is_open())
            why = "!";
        else {
            same_contents(&h, w.m, why);
            h.Close();
        }
        snprintf(msg, 4000, "%s", why.c_str());
        _exit(0);
    },
        20);
    std::string why = msg;
    munmap(msg, 4096);
    opened = why != "!";
    if (st != 0)
        return w.fail("backup-reader-crash", strf("a reader of the copy ended with status 0x%x", st));
    if (!opened)
        return may_not_open || w.fail("backup-open", "the copy does not open");
    if (!why.empty())
        return w.fail("backup-contents", "the copy opens, but " + why);
    return true;
}
static void run_backup(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& t = themes[ti];
    count(C_SEQ);
    fio.stdio = true;
    fio.reads = true;
    Case c(t, seq, seq.size());
    World& w = c.w;
    if (prune(w)) {
        out.aux = 1;
        return;
    }
    Audit a;
    w.audit(a, false);
    out.hash = hmix(a.hash, ti);
    if (!note_distinct(out.hash))
        return; // same state as another sequence's
    int nk = 0;
    for (int mode : { FIO_COUNT, FIO_ONCE, FIO_ON, FIO_KILL })
        for (int k = 1; mode == FIO_COUNT ? k == 1 : k <= nk; k++) {
            std::string bd = c.dir + "/bk", bd2 = c.dir + "/bk2", how;
            mkdir(bd.c_str(), 0755);
            mkdir(bd2.c_str(), 0755);
            heartbeat();
            bool ok = true, opened;
            int rc = -1;
            if (mode == FIO_KILL) {
                int st = in_child([&] {
                    fio.arm(mode, k);
                    w.w->Backup(bd.c_str());
                    _exit(0);
                },
                    20);
                how = strf(" ; backup, ended at its %d. system call", k);
                if (!WIFEXITED(st))
                    ok = w.fail("crash-in-backup", strf("status 0x%x", st));
                count(C_KILLS);
            } else {
                fio.arm(mode, k);
                rc = w.w->Backup(bd.c_str());
                fio.disarm();
                how = mode == FIO_COUNT ? " ; backup" : strf(" ; backup with its %d. system call (%s) %s", k, fio.call, mode == FIO_ONCE ? "failing" : "and all later ones failing");
                if (mode == FIO_COUNT) {
                    nk = fio.n;
                    if (rc)
                        ok = w.fail("backup-rc", std::string("Backup returned ") + es(rc));
                } else {
                    count(C_FAULTS);
                    count(rc ? C_FAILED : C_DONE);
                }
            }
            ok = ok && copy_is(w, bd, rc != 0, opened);
            std::string why;
            if (ok && !same_contents(w.w, w.m, why))
                ok = w.fail("backup-source", "afterwards the source " + why);
            if (ok && rc != 0) { // the next one is complete
                if ((rc = w.w->Backup(bd2.c_str())))
                    ok = w.fail("backup-again", std::string("the next backup, to another place, returned ") + es(rc));
                ok = ok && copy_is(w, bd2, false, opened);
                if (ok && w.w->Backup(bd.c_str()) == 0)
                    ok = copy_is(w, bd, false, opened);
            }
            report(out, w, t, ti, seq, how);
            DB::ClearResources(bd);
            DB::ClearResources(bd2);
            rm_tree(bd);
            rm_tree(bd2);
            if (out.failed)
                return;
        }
    w.lossy = true; // the lists of free storage are not kept
    if (reopens(w) && !(w.apply(N('c')) && all_right(w, t, "after reopening the source")))
        report(out, w, t, ti, seq, " ; backups");
}

static void select_themes()
{
    const std::string& p = opt.prop;
    bool T = thorough();
    auto add = [&](Theme t) { themes.push_back(t); };
    if (p == "C22")
        for (const char* c : { "default", "multi", "unmapped", "partial", "jemalloc", "b4" })
            for (int r : { 0, 1, 2 })
                if (r < 2 || c[0] == 'b')
                    add(th_backup(c, r == 2 ? T : 1 + T, r));
    if (p == "C15") {
        pool_recycle = 100; // the arenas of closed databases take up address space
        for (const char* c : { "default", "multi", "partial", "unmapped", "onlyidx", "onlydat", "sync", "memory" })
            for (int r : { 0, 1 })
                add(th_space(c, r, 64, 256, T ? 3 : 2));
        for (bool keep : { false, true })
            for (int b : { 2, 3 })
                for (int r : { 0, 5, 7, 8, 9 }) { // allocator mode
                    Theme t = th_keep("keep1", b, r, r ? 2 + T : 1 + T);
                    t.name += keep ? "" : "-reset";
                    t.cfg.keep = keep;
                    t.ops.erase(std::remove_if(t.ops.begin(), t.ops.end(), [](const Op& o) { return !strchr("AORX", o.t); }), t.ops.end());
                    t.ops.push_back(A("abcdefgY" + std::string(200, 'y'), "y"));
                    if (r == 8) {
                        t.cfg.tolerant = false;
                        t.cfg.maxi = t.cfg.maxd = 4;
                    }
                    t.ops.push_back(R("d001"));
                    t.ops.push_back(P("d003", val("d", 3, 32000)));
                    add(t);
                }
        for (const char* c : { "multi", "partial", "unmapped", "memory" })
            for (int mi : { 2, 3 })
                for (int md : { 2, 3 })
                    for (int r : { 0, 1, 2 })
                        add(th_space(c, r, mi, md, T ? 4 : 3));
    }
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    DB::SetLogLevel(0);
    select_themes();
    report_extra = [](Report& r) {
        r.num["sequences"] = shared->ctr[C_SEQ];
        r.num["operations"] = shared->ctr[C_OPS];
        r.num["failures_injected"] = shared->ctr[C_FAULTS] + shared->ctr[C_KILLS];
        r.num["reported_as_errors"] = shared->ctr[C_FAILED];
        r.num["done_in_another_way"] = shared->ctr[C_DONE];
        r.num["ended_processes"] = shared->ctr[C_KILLS];
        r.num["refused_without_injection"] = shared->ctr[C_REFUSED];
    };
    if (themes.empty()) {
        fprintf(stderr, "no themes for %s\n", opt.prop.c_str());
        return 3;
    }
    return explore(opt.prop == "C22" ? run_backup : run_fault);
}
