// Engine K: every crash point of an update. The last operation of an
// enumerated sequence runs under the store recorder; for every prefix of its
// stores the files are rebuilt as a killed writer would leave them, the next
// writer opens them, and the result is compared with the state before or after
// the operation, then put to use.
#include "themes.h"
#include "trace.h"
using namespace mc;

static int LEVEL2;          // also crash the recovery, at every prefix of its stores
static std::set<std::string> L2_THEMES;
static bool PRE_ONLY;       // C09: contents must be those before the collection
static uint64_t VAL_EVERY;  // one in so many cases is checked against really killed processes

enum { C_CASES = 0, C_OPS = 1, C_PRUNED = 3, C_IMAGES = 4, C_DISTINCT, C_REC2, C_KILLED, C_EVENTS, C_BATTERY };

struct Base { // how a state is reached
    int ti;
    const std::vector<uint8_t>* seq;
};

static const char* status_name(int s)
{
    static const char* n[] = { "none", "add-edge", "add-data", "add-node", "remove-edge", "clear-edge", "rc-node", "rc-edgestr", "rc-data", "rc-tree", "rebuild-root" };
    return s >= 0 && s <= 10 ? n[s] : "other";
}
static int image_status(const Image& im)
{
    auto it = im.find("_mabain_h");
    if (it == im.end() || it->second.size() < sizeof(IndexHeader))
        return -1;
    int s;
    memcpy(&s, it->second.data() + offsetof(IndexHeader, excep_updating_status), sizeof s);
    return s;
}

// The reopened database must hold exactly before or after; then it is used.
static bool verify(World& w, const Model& before, const Model& after, const Theme& t, const Op& victim, std::string& kind, std::string& msg)
{
    auto matches = [&](const Model& m, std::string& why) { return same_contents(w.w, m, why); };
    std::string wa, wb;
    Model m;
    if (matches(after, wa) && (!PRE_ONLY || after == before))
        m = after;
    else if (matches(before, wb))
        m = before;
    else {
        kind = "contents";
        // name what is wrong: count only, or entries
        if (wa.compare(0, 5, "count") == 0 || wb.compare(0, 5, "count") == 0) {
            int64_t c = w.w->Count();
            std::vector<std::pair<std::string, std::string>> it;
            if (iterate(w.w, nullptr, it, after.size() + before.size() + 8)) {
                Model im(it.begin(), it.end());
                if (it.size() == im.size() && (im == before || im == after) && c != (int64_t)im.size())
                    kind = "count";
            }
        }
        msg = "neither applied (" + wa + ") nor absent (" + wb + ")";
        return false;
    }
    w.m = m;
    auto bad = [&](const char* k) {
        kind = std::string(k) + ":" + w.kind;
        msg = w.err + (m == after ? " (update applied)" : " (update absent)");
        return false;
    };
    if (!w.check(w.w, "writer", O_FIND | O_COUNT | O_ITER, t.queries, t.prefixes))
        return bad("after-recovery");
    Audit a;
    w.partial_gc = true; // pending bytes lost with the free lists are not compared
    if (!w.audit(a, true))
        return bad("after-recovery");
    // Use it: the interrupted operation again, then replace, remove and refill everything.
    count(C_BATTERY);
    if (!w.apply(victim))
        return bad("usability");
    std::vector<std::string> ks;
    for (auto& o : t.ops)
        if (!o.k.empty() && o.k.size() <= 256)
            ks.push_back(o.k);
    for (auto& e : w.m)
        ks.push_back(e.first);
    std::sort(ks.begin(), ks.end());
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    std::string why;
    size_t n = 0;
    for (auto& k : ks) {
        if (n++ & 1) {
            if (!w.apply({ 'O', k, "again:" + k.substr(0, 20), 0 }))
                return bad("usability");
        } else if (!w.apply({ 'R', k, "", 0 }))
            return bad("usability");
    }
    if (!same_contents(w.w, w.m, why)) {
        w.fail("reuse", why);
        return bad("usability");
    }
    n = 0;
    for (auto& k : ks)
        if (n++ & 1) {
            if (!w.apply({ 'R', k, "", 0 }))
                return bad("usability");
        } else if (!w.apply({ 'O', k, "new:" + k.substr(0, 20), 0 }))
            return bad("usability");
    Audit a2;
    if (!w.audit(a2, true))
        return bad("usability");
    if (!same_contents(w.w, w.m, why)) {
        w.fail("reuse", why);
        return bad("usability");
    }
    return true;
}

// Open the image in dir, verify. rec: record the recovery's stores.
static bool recover(const std::string& dir, const Image& im, const Cfg& cfg, const Model& before, const Model& after, const Theme& t, const Op& victim, Recorder* rec, std::string& kind, std::string& msg)
{
    store_image(im, dir);
    mabain::DB::ClearResources(dir);
    bool ok = true;
    try {
        World w;
        w.dir = dir;
        w.cfg = cfg;
        if (rec)
            rt = rec;
        ok = w.open_writer();
        if (rec) {
            rec->flush();
            rt = nullptr;
        }
        if (!ok) {
            kind = "open";
            msg = w.err;
        } else
            ok = verify(w, before, after, t, victim, kind, msg);
    } catch (int e) {
        rt = nullptr;
        kind = "exception";
        msg = strf("exception %d (%s)", e, es(e));
        ok = false;
    }
    mabain::DB::ClearResources(dir);
    return ok;
}

static bool same_image(const Image& a, const Image& b, std::string& why)
{
    for (auto& f : a) {
        if (f.first.compare(0, 9, "_mabain_q") == 0)
            continue; // named after an inode
        auto it = b.find(f.first);
        if (it == b.end()) {
            why = "file " + f.first + " missing";
            return false;
        }
        std::string x = f.second, y = it->second;
        if (f.first == "_mabain_h" && x.size() >= sizeof(IndexHeader) && y.size() >= sizeof(IndexHeader)) {
            memset(&x[offsetof(IndexHeader, shm_queue_id)], 0, 8); // an inode number
            memset(&y[offsetof(IndexHeader, shm_queue_id)], 0, 8);
        }
        if (x != y) {
            size_t i = 0;
            while (i < x.size() && i < y.size() && x[i] == y[i])
                i++;
            why = strf("%s differs at %zu (%zu/%zu bytes)", f.first.c_str(), i, x.size(), y.size());
            return false;
        }
    }
    for (auto& f : b)
        if (!a.count(f.first) && f.first.compare(0, 9, "_mabain_q")) {
            why = "file " + f.first + " is extra";
            return false;
        }
    return true;
}

static void run_crash(int ti, const std::vector<uint8_t>& seq, CaseOut& out)
{
    Theme& t = themes[ti];
    std::string wd = worker_dir(), dir = wd + "/d", dirb = wd + "/r";
    mkdir(dir.c_str(), 0755);
    mkdir(dirb.c_str(), 0755);
    rt = nullptr;
    rt_forget_files();
    Recorder rec;
    Image im0, im1;
    Model before, after;
    Op victim = seq.empty() ? (t.init.empty() ? Op { 'A', "k", "v", 0 } : t.init.back()) : t.ops[seq.back()];
    bool ok;
    auto build = [&](World& w) {
        bool k = w.open(dir, t.cfg, false);
        size_t ni = seq.empty() && !t.init.empty() ? t.init.size() - 1 : t.init.size();
        for (size_t i = 0; k && i < ni; i++)
            k = w.apply(t.init[i]);
        for (size_t i = 0; k && i + 1 < seq.size(); i++)
            k = w.apply(t.ops[seq[i]]);
        return k;
    };
    bool victim_is_gc = victim.t == 'G' || victim.t == 'g';
    {
        World w;
        ok = build(w);
        if (ok) {
            im0 = load_image(dir);
            before = w.m;
            rt = &rec;
            ok = w.apply(victim);
            rec.flush();
            rt = nullptr;
            after = w.m;
            im1 = load_image(dir);
            count(C_OPS, seq.size());
            Audit a;
            audit_db(*w.w, a);
            uint64_t h = hmix(a.hash, ti);
            for (auto& e : w.m)
                h = hash_bytes(e.first.data(), e.first.size(), hash_bytes(e.second.data(), e.second.size(), h));
            out.hash = h;
            note_distinct(h);
        }
    }
    mabain::DB::ClearResources(dir);
    count(C_CASES);
    if (!ok) {
        out.aux = 1; // another property's business
        count(C_PRUNED);
    }
    bool explore_it = ok && (!PRE_ONLY || victim_is_gc) && rec.ev.size() > 0;
    if (explore_it) {
        count(C_EVENTS, rec.ev.size());
        Image im = im0;
        bool l2 = LEVEL2 || L2_THEMES.count(t.name);
        std::set<uint64_t> done;
        std::string why;
        for (auto& e : rec.ev)
            apply_ev(im, e);
        if (!same_image(im, im1, why)) {
            out.fail("harness-trace", "replaying the recorded stores does not give the real files: " + why);
            clear_dir(dir);
            return;
        }
        im = im0;
        if (!opt.replay.empty() && opt.verbose)
            for (size_t n = 0; n < rec.ev.size(); n++)
                fprintf(term, "%3zu %s\n", n + 1, ev_str(rec.ev[n]).c_str());
        for (size_t n = 0; n <= rec.ev.size(); n++) {
            if (n)
                apply_ev(im, rec.ev[n - 1]);
            count(C_IMAGES);
            if (!done.insert(image_hash(im)).second)
                continue;
            count(C_DISTINCT);
            heartbeat();
            std::string kind, msg;
            Recorder r2;
            if (!recover(dirb, im, t.cfg, before, after, t, victim, l2 ? &r2 : nullptr, kind, msg)) {
                int st = image_status(im);
                out.fail(strf("%s/%s/%s", opstr(victim).substr(0, opstr(victim).find('(')).c_str(), status_name(st), kind.c_str()),
                    strf("[%s] after %s, writer killed after store %zu of %zu (last: %s; next: %s; status %s): ", t.name.c_str(), desc_seq(ti, seq).c_str(), n, rec.ev.size(), n ? ev_str(rec.ev[n - 1]).c_str() : "-", n < rec.ev.size() ? ev_str(rec.ev[n]).c_str() : "-", status_name(st)) + msg);
                break;
            }
            if (l2 && r2.ev.size() > 0) {
                Image j = im;
                bool bad = false;
                for (size_t k = 0; k < r2.ev.size() && !bad; k++) {
                    if (k)
                        apply_ev(j, r2.ev[k - 1]);
                    if (!done.insert(image_hash(j)).second)
                        continue;
                    count(C_REC2);
                    heartbeat();
                    if (!recover(dirb, j, t.cfg, before, after, t, victim, nullptr, kind, msg)) {
                        int st = image_status(j);
                        out.fail(strf("recovery-of-%s/%s/%s", opstr(victim).substr(0, opstr(victim).find('(')).c_str(), status_name(st), kind.c_str()),
                            strf("[%s] after %s, writer killed after store %zu of %zu, next writer killed after store %zu of %zu of its recovery (last: %s): ", t.name.c_str(), desc_seq(ti, seq).c_str(), n, rec.ev.size(), k, r2.ev.size(), k ? ev_str(r2.ev[k - 1]).c_str() : "-") + msg);
                        bad = true;
                    }
                }
                if (bad)
                    break;
            }
        }
        // Bind the model of a crash to real ones: kill a process at some of the points.
        if (!out.failed && VAL_EVERY && out.hash % VAL_EVERY == 0) {
            for (size_t n : { (size_t)0, rec.ev.size() / 3, rec.ev.size() * 2 / 3, rec.ev.size() - 1 }) {
                clear_dir(dir);
                int st = in_child([&] {
                    DB::ClearResources(dir);
                    World* w = new World;
                    if (!build(*w))
                        _exit(3);
                    Recorder* r = new Recorder;
                    r->on_event = [r, n] {
                        if (r->seen == n)
                            kill(getpid(), SIGKILL);
                    };
                    rt = r;
                    w->apply(victim);
                    _exit(4);
                },
                    20);
                Image want = im0, got = load_image(dir);
                for (size_t k = 0; k < n; k++)
                    apply_ev(want, rec.ev[k]);
                if (!WIFSIGNALED(st) || !same_image(want, got, why)) {
                    out.fail("harness-conformance", strf("killed process left other files than the trace prefix %zu: status %x %s", n, st, why.c_str()));
                    break;
                }
                count(C_KILLED);
                std::string kind, msg;
                if (!recover(dirb, got, t.cfg, before, after, t, victim, nullptr, kind, msg)) {
                    out.fail("killed/" + kind, msg);
                    break;
                }
            }
        }
    }
    clear_dir(dir);
    clear_dir(dirb);
}

static void select_themes()
{
    bool T = thorough();
    auto add = [&](Theme t) {
        t.cfg.bsi = std::min<uint32_t>(t.cfg.bsi, 16 * 1024);
        t.cfg.maxi = 64;
        themes.push_back(t);
    };
    PRE_ONLY = opt.prop == "C09";
    if (opt.prop == "C08") {
        LEVEL2 = opt.getl("level2", T);
        L2_THEMES = { "tail8", "tail8-full", "tail13", "fan1-sm", "fan2-s", "fan3-sm", "long-full" };
        VAL_EVERY = 61;
        add(th_bin3(false, T ? 3 : 2));
        add(th_bin3(true, T ? 2 : 1));
        for (int L : { 8, 13 }) {
            add(th_tail(L, T ? 2 : 1, false));
            add(th_tail(L, T ? 2 : 1, true));
        }
        for (int n : { 1, 2, 3, 10, 16, 17, 255, 256 })
            add(th_fan(n, T ? 2 : 1, "s", n % 2));
        add(th_long(T ? 2 : 1, true));
        add(th_values(T ? 2 : 1, false));
        for (const char* c : { "multi", "partial", "unmapped" })
            for (int r : { 0, 1 })
                add(th_mixed(c, T ? 2 : 1, "X", r));
    }
    if (opt.prop == "C09") {
        LEVEL2 = opt.getl("level2", 0);
        VAL_EVERY = 11;
        L2_THEMES = { "life" };
        add(th_life(cfg_small(), T ? 3 : 2, "life", true, false, 0));
        for (const char* c : { "default", "multi", "partial", "unmapped" })
            for (int r : { 0, 1 })
                add(th_mixed(c, T ? 3 : 2, "G1", r));
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    mabain::DB::SetLogLevel(0);
    select_themes();
    report_extra = [](Report& r) {
        r.num["stores_recorded"] = shared->ctr[C_EVENTS];
        r.num["crash_points"] = shared->ctr[C_IMAGES];
        r.num["distinct_crash_images"] = shared->ctr[C_DISTINCT];
        r.num["crashes_in_recovery"] = shared->ctr[C_REC2];
        r.num["real_kills_compared"] = shared->ctr[C_KILLED];
        r.num["recovered_then_used"] = shared->ctr[C_BATTERY];
    };
    return explore(run_crash, 60);
}
