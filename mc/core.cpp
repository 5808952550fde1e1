#include "core.h"
#include <sys/resource.h>
#include <algorithm>
#include <cstdarg>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {
Options opt;
Shared* shared;
std::vector<Violation> violations;
std::vector<std::string> unconfirmed;
FILE* term;
static int g_worker = -1;
static std::atomic<uint64_t>* g_set;
static const uint64_t SETCAP = 1ULL << 25;
static std::atomic<uint64_t>* g_setn;

double now()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void* shm(size_t n)
{
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return p;
}

std::string strf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char* s = nullptr;
    if (vasprintf(&s, fmt, ap) < 0)
        abort();
    va_end(ap);
    std::string r(s);
    free(s);
    return r;
}

void parse_args(int argc, char** argv)
{
    double budget = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        size_t eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "1" : a.substr(eq + 1);
        if (k == "--prop") opt.prop = v;
        else if (k == "--tier") opt.tier = v;
        else if (k == "--out") opt.out = v;
        else if (k == "--scratch") opt.scratch = v;
        else if (k == "--replay") opt.replay = v;
        else if (k == "--jobs") opt.jobs = atoi(v.c_str());
        else if (k == "--budget") budget = atof(v.c_str());
        else if (k == "--verbose") opt.verbose = true;
        else opt.kv[k.substr(0, 2) == "--" ? k.substr(2) : k] = v;
    }
    if (opt.scratch.empty()) {
        fprintf(stderr, "--scratch required\n");
        exit(3);
    }
    mkdir(opt.scratch.c_str(), 0755);
    if (budget > 0)
        opt.deadline = now() + budget;
    shared = (Shared*)shm(sizeof(Shared));
    g_set = (std::atomic<uint64_t>*)shm(SETCAP * 8);
    g_setn = (std::atomic<uint64_t>*)shm(64);
    term = fdopen(dup(1), "w");
    setvbuf(term, nullptr, _IOLBF, 0);
    fcntl(fileno(term), F_SETFD, FD_CLOEXEC);
}

void count(int c, uint64_t d) { shared->ctr[c].fetch_add(d, std::memory_order_relaxed); }
void count_max(int c, uint64_t v)
{
    uint64_t o = shared->ctr[c].load();
    while (v > o && !shared->ctr[c].compare_exchange_weak(o, v)) { }
}
void sample(const std::string& s)
{
    if (shared->nsample.load() >= 24)
        return;
    uint64_t i = shared->nsample.fetch_add(1);
    if (i < 24)
        snprintf(shared->sample[i], sizeof shared->sample[i], "%s", s.c_str());
}

bool note_distinct(uint64_t h)
{
    if (h == 0)
        h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ULL) >> 39;
    for (uint64_t n = 0; n < SETCAP; n++, i = (i + 1) & (SETCAP - 1)) {
        uint64_t e = g_set[i].load(std::memory_order_relaxed);
        if (e == h)
            return false;
        if (e == 0) {
            if (g_setn->load() > SETCAP * 3 / 4)
                return false;
            if (g_set[i].compare_exchange_strong(e, h)) {
                g_setn->fetch_add(1);
                return true;
            }
            if (e == h)
                return false;
        }
    }
    return false;
}
uint64_t distinct_count() { return g_setn->load(); }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    while (n >= 8) {
        uint64_t v;
        memcpy(&v, b, 8);
        h = hmix(h, v);
        b += 8;
        n -= 8;
    }
    uint64_t v = n;
    for (size_t i = 0; i < n; i++)
        v = (v << 8) | b[i];
    return hmix(h, v);
}

std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; i++) {
        r += d[((const uint8_t*)p)[i] >> 4];
        r += d[((const uint8_t*)p)[i] & 15];
    }
    return r;
}
std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
std::string unhex(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
    return r;
}

void clear_dir(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d)
        return;
    while (dirent* e = readdir(d)) {
        if (e->d_name[0] == '.' && (!e->d_name[1] || (e->d_name[1] == '.' && !e->d_name[2])))
            continue;
        std::string p = dir + "/" + e->d_name;
        if (e->d_type == DT_DIR)
            rm_tree(p);
        else
            syscall(SYS_unlink, p.c_str());
    }
    closedir(d);
}
void rm_tree(const std::string& dir)
{
    if (dir.find("/mcv.") == std::string::npos) // never outside a scratch directory
        return;
    clear_dir(dir);
    rmdir(dir.c_str());
}
std::string read_file(const std::string& p)
{
    std::string r;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return r;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
        r.append(b, n);
    fclose(f);
    return r;
}
void write_file(const std::string& p, const std::string& d)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f)
        return;
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
}

void noise_off()
{
    // a damaged database must not take the machine down
    rlimit lim = { 3ULL << 30, 3ULL << 30 };
    setrlimit(RLIMIT_AS, &lim);
    if (opt.verbose)
        return;
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}

std::string worker_dir()
{
    static pid_t made = 0;
    std::string d = opt.scratch + strf("/w%d_%d", g_worker, (int)getpid());
    if (made != getpid()) {
        made = getpid();
        rm_tree(d); // left by a killed worker that had the same pid
        mkdir(d.c_str(), 0755);
    }
    return d;
}

void heartbeat()
{
    if (g_worker >= 0 && g_worker < 64)
        shared->beat[g_worker].fetch_add(1, std::memory_order_relaxed);
}

struct Slot {
    std::atomic<uint64_t> cur;  // case index + 1; 0 = idle
    std::atomic<uint64_t> done; // progress ticks
};
struct Viol {
    uint64_t idx;
    char kind[160];
    char msg[3000];
};
struct Ctl {
    std::atomic<uint64_t> next, done;
    std::atomic<uint32_t> nviol;
    std::atomic<uint32_t> stop;
    Slot slot[64];
    Viol viol[64];
};

static const char* signame(int s)
{
    switch (s) {
    case SIGSEGV: return "SIGSEGV";
    case SIGABRT: return "SIGABRT";
    case SIGBUS: return "SIGBUS";
    case SIGFPE: return "SIGFPE";
    case SIGKILL: return "SIGKILL";
    case SIGALRM: return "timeout";
    }
    return "signal";
}

int in_child(const std::function<void()>& body, double timeout_s)
{
    fflush(term);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        body();
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    int us = 50;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p)
            return st;
        if (now() - t0 > timeout_s) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return -1;
        }
        timespec ts = { 0, us * 1000 };
        syscall(SYS_nanosleep, &ts, nullptr);
        if (us < 2000)
            us *= 2;
    }
}

// Run one case alone in a fresh process; returns true if it fails.
static bool run_alone(uint64_t idx, const CaseFn& fn, double timeout_s, std::string& kind, std::string& msg)
{
    Viol* v = (Viol*)shm(sizeof(Viol));
    v->kind[0] = 0;
    int save = g_worker;
    g_worker = 63;
    int st = in_child([&] {
        noise_off();
        CaseOut o;
        fn(idx, o);
        if (o.failed) {
            snprintf(v->kind, sizeof v->kind, "%s", o.kind.c_str());
            snprintf(v->msg, sizeof v->msg, "%s", o.msg.c_str());
        }
    },
        timeout_s);
    g_worker = save;
    bool bad = false;
    if (st == -1) {
        kind = "hang";
        msg = strf("case did not finish within %.0f s", timeout_s);
        bad = true;
    } else if (WIFSIGNALED(st)) {
        kind = strf("crash-%s", signame(WTERMSIG(st)));
        msg = "process killed by signal";
        bad = true;
    } else if (WEXITSTATUS(st) != 0) {
        kind = strf("exit-%d", WEXITSTATUS(st));
        msg = "process ended unexpectedly";
        bad = true;
    } else if (v->kind[0]) {
        kind = v->kind;
        msg = v->msg;
        bad = true;
    }
    munmap(v, sizeof(Viol));
    return bad;
}

int pool_recycle = 20000;
PoolResult run_pool(const std::string& label, uint64_t n, const CaseFn& fn, const DescFn& desc,
    bool keep, double hang_s, size_t max_viol)
{
    PoolResult R;
    if (n == 0)
        return R;
    Ctl* c = (Ctl*)shm(sizeof(Ctl));
    uint64_t* H = keep ? (uint64_t*)shm(n * 8) : nullptr;
    uint64_t* A = keep ? (uint64_t*)shm(n * 8) : nullptr;
    uint8_t* ranv = keep ? (uint8_t*)shm(n) : nullptr;
    int W = std::min<uint64_t>(opt.jobs, n);
    if (W > 60)
        W = 60;
    std::vector<pid_t> pid(W, 0);
    std::vector<uint64_t> last(W, 0);
    std::vector<double> lastt(W, now());
    fflush(term);
    auto spawn = [&](int w) {
        c->slot[w].cur = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_worker = w;
            noise_off();
            std::string wd = worker_dir();
            int cnt = 0;
            while (!c->stop.load()) {
                if (now() > opt.deadline)
                    break;
                if (++cnt > pool_recycle) { // recycle: bounded library-global state per process
                    rm_tree(wd);
                    _exit(77);
                }
                uint64_t i = c->next.fetch_add(1);
                if (i >= n)
                    break;
                c->slot[w].cur = i + 1;
                CaseOut o;
                fn(i, o);
                if (keep) {
                    H[i] = o.hash;
                    A[i] = o.aux;
                    ranv[i] = 1;
                }
                if (o.failed) {
                    uint32_t k = c->nviol.fetch_add(1);
                    if (k < 64) {
                        snprintf(c->viol[k].kind, sizeof c->viol[k].kind, "%s", o.kind.c_str());
                        snprintf(c->viol[k].msg, sizeof c->viol[k].msg, "%s", o.msg.c_str());
                        c->viol[k].idx = i + 1;
                    } else
                        c->stop = 1;
                }
                c->slot[w].cur = 0;
                c->slot[w].done++;
                c->done++;
            }
            rm_tree(wd);
            _exit(0);
        }
        pid[w] = p;
        lastt[w] = now();
    };
    for (int w = 0; w < W; w++)
        spawn(w);
    struct Pend {
        uint64_t idx;
        std::string kind, msg;
    };
    std::vector<Pend> pend;
    int live = W, crashes = 0;
    while (live > 0) {
        int st;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0) {
            for (int w = 0; w < W; w++)
                if (pid[w] == r) {
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                        pid[w] = 0;
                        live--;
                    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                        spawn(w);
                    } else {
                        uint64_t cur = c->slot[w].cur;
                        crashes++;
                        if (cur) {
                            std::string k = WIFSIGNALED(st) ? strf("crash-%s", signame(WTERMSIG(st))) : strf("exit-%d", WEXITSTATUS(st));
                            pend.push_back({ cur - 1, k, "process died while running the case" });
                            c->done++;
                        }
                        if (crashes < 40) {
                            spawn(w);
                        } else {
                            c->stop = 1;
                            pid[w] = 0;
                            live--;
                        }
                    }
                    break;
                }
            continue;
        }
        double t = now();
        for (int w = 0; w < W; w++)
            if (pid[w]) {
                uint64_t d = c->slot[w].done + shared->beat[w].load();
                if (d != last[w]) {
                    last[w] = d;
                    lastt[w] = t;
                } else if (t - lastt[w] > hang_s) {
                    uint64_t cur = c->slot[w].cur;
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    crashes += 4;
                    if (cur)
                        pend.push_back({ cur - 1, "hang", "no progress" });
                    c->done++;
                    if (crashes < 40)
                        spawn(w);
                    else {
                        c->stop = 1;
                        pid[w] = 0;
                        live--;
                    }
                }
            }
        timespec ts = { 0, 2000000 };
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    uint32_t nv = std::min<uint32_t>(c->nviol, 64);
    for (uint32_t k = 0; k < nv; k++)
        if (c->viol[k].idx)
            pend.push_back({ c->viol[k].idx - 1, c->viol[k].kind, c->viol[k].msg });
    // confirm: lowest case first, one per kind first
    std::sort(pend.begin(), pend.end(), [](const Pend& a, const Pend& b) { return a.idx < b.idx; });
    std::set<uint64_t> seen;
    std::map<std::string, int> perkind;
    int tried = 0;
    for (auto& p : pend) {
        if (!seen.insert(p.idx).second)
            continue;
        if (perkind[p.kind] >= 2 || violations.size() >= max_viol + 4 || tried >= 24)
            continue;
        tried++;
        std::string k1, m1;
        double lim = std::max(60.0, 2 * hang_s);
        bool ok = run_alone(p.idx, fn, lim, k1, m1);
        if (!ok) {
            unconfirmed.push_back(label + ": " + p.kind + ": " + p.msg + " @ " + desc(p.idx));
            continue;
        }
        perkind[p.kind]++;
        violations.push_back({ k1, m1, desc(p.idx) });
    }
    R.done = c->done;
    R.cut = c->next.load() < n && !c->stop.load();
    if (keep) {
        R.hash.assign(H, H + n);
        R.aux.assign(A, A + n);
        R.ran.assign(ranv, ranv + n);
        munmap(H, n * 8);
        munmap(A, n * 8);
        munmap(ranv, n);
    }
    munmap(c, sizeof(Ctl));
    if (opt.verbose)
        fprintf(term, "[%s] cases=%llu/%llu viol=%u pend=%zu\n", label.c_str(), (unsigned long long)R.done, (unsigned long long)n, nv, pend.size());
    return R;
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch < 32 || ch > 126)
            r += strf("\\u%04x", ch);
        else
            r += ch;
    }
    return r + "\"";
}

int finish(Report& r)
{
    std::string j = "{\n";
    j += " \"prop\": " + jstr(opt.prop) + ",\n \"num\": {";
    bool f = true;
    for (auto& x : r.num) {
        j += (f ? "" : ", ") + jstr(x.first) + strf(": %.17g", x.second);
        f = false;
    }
    j += "},\n \"str\": {";
    f = true;
    for (auto& x : r.str) {
        j += (f ? "" : ", ") + jstr(x.first) + ": " + jstr(x.second);
        f = false;
    }
    j += "},\n \"notes\": [";
    f = true;
    for (auto& x : r.notes) {
        j += (f ? "" : ", ") + jstr(x);
        f = false;
    }
    j += "],\n \"samples\": [";
    f = true;
    for (uint64_t i = 0; i < std::min<uint64_t>(24, shared->nsample.load()); i++) {
        j += (f ? "" : ", ") + jstr(shared->sample[i]);
        f = false;
    }
    j += "],\n \"unconfirmed\": [";
    f = true;
    for (auto& x : unconfirmed) {
        j += (f ? "" : ", ") + jstr(x);
        f = false;
    }
    j += "],\n \"violations\": [";
    f = true;
    for (auto& v : violations) {
        j += (f ? "" : ",") + std::string("\n  {\"kind\": ") + jstr(v.kind) + ", \"msg\": " + jstr(v.msg) + ", \"replay\": " + jstr(v.replay) + "}";
        f = false;
    }
    j += "]\n}\n";
    if (!opt.out.empty())
        write_file(opt.out, j);
    if (opt.verbose || opt.out.empty())
        fputs(j.c_str(), term);
    fflush(term);
    return 0;
}
}

// ---- containment: the library can delete files; keep that inside scratch -----
static bool inside_scratch(const char* p)
{
    return p && strstr(p, "/mcv.") != nullptr && strstr(p, "/../") == nullptr;
}
extern "C" int unlink(const char* p)
{
    if (!inside_scratch(p)) {
        errno = EPERM;
        return -1;
    }
    return syscall(SYS_unlink, p);
}
extern "C" int rmdir(const char* p)
{
    if (!inside_scratch(p)) {
        errno = EPERM;
        return -1;
    }
    return syscall(SYS_rmdir, p);
}
extern "C" int remove(const char* p)
{
    if (!inside_scratch(p)) {
        errno = EPERM;
        return -1;
    }
    int r = syscall(SYS_unlink, p);
    if (r < 0 && errno == EISDIR)
        r = syscall(SYS_rmdir, p);
    return r;
}
extern "C" int rename(const char* a, const char* b)
{
    if (!inside_scratch(a) || !inside_scratch(b)) {
        errno = EPERM;
        return -1;
    }
    return syscall(SYS_rename, a, b);
}
