// Exploration core shared by all checks: a forked worker pool that runs an
// enumerated set of cases, attributes crashes and hangs to the case that
// caused them, and confirms every failure by running the case again, alone, in
// a fresh process before it is reported.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <sys/types.h>

namespace mc {

// ---- options common to all harnesses -------------------------------------
struct Options {
    std::string prop;           // property being decided
    std::string tier = "quick";
    std::string out;            // result file (json lines)
    std::string scratch;        // private scratch directory
    std::string replay;         // replay descriptor ("" = explore)
    int jobs = 8;
    double deadline = 1e18;     // absolute monotonic time after which exploration is cut
    bool verbose = false;
    std::map<std::string, std::string> kv;
    long getl(const char* k, long d) const
    {
        auto it = kv.find(k);
        return it == kv.end() ? d : atol(it->second.c_str());
    }
    std::string gets(const char* k, const std::string& d = "") const
    {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
};
extern Options opt;
void parse_args(int argc, char** argv);
double now();

// ---- per-case result -------------------------------------------------------
// A case function runs in a worker. It calls fail() for a violation (the first
// one is kept) and may set an outcome hash and up to 4 counters.
struct CaseOut {
    uint64_t hash = 0;      // canonical state / outcome hash
    uint64_t aux = 0;       // free for the engine (e.g. "prune" marker)
    bool failed = false;
    std::string kind;       // short stable signature of the violation
    std::string msg;        // human readable
    void fail(const std::string& k, const std::string& m)
    {
        if (!failed) {
            failed = true;
            kind = k;
            msg = m;
        }
    }
};
typedef std::function<void(uint64_t, CaseOut&)> CaseFn;
typedef std::function<std::string(uint64_t)> DescFn; // replay descriptor of a case

struct Violation {
    std::string kind, msg, replay;
};

struct PoolResult {
    uint64_t done = 0;
    bool cut = false;                  // deadline reached before all cases were run
    std::vector<uint64_t> hash, aux;   // per case (only if keep)
    std::vector<uint8_t> ran;          // per case (only if keep)
};

// Run cases [0,n). Violations go to the global list.
extern int pool_recycle; // cases after which a worker process is replaced
PoolResult run_pool(const std::string& label, uint64_t n, const CaseFn& fn, const DescFn& desc,
    bool keep, double hang_s = 30, size_t max_viol = 6);
extern std::vector<Violation> violations;
extern std::vector<std::string> unconfirmed;

// shared counters, usable from workers
enum { NCTR = 32 };
struct Shared {
    std::atomic<uint64_t> ctr[NCTR];
    std::atomic<uint64_t> nsample;
    char sample[24][400];
    std::atomic<uint64_t> beat[64];
};
extern Shared* shared;
void count(int c, uint64_t d = 1);
void count_max(int c, uint64_t v);
void sample(const std::string& s);
// long cases call this to show they make progress
void heartbeat();

// distinct outcome counting across workers (approximate only by hash collision)
bool note_distinct(uint64_t h);
uint64_t distinct_count();

// ---- reporting -------------------------------------------------------------
struct Report {
    std::map<std::string, double> num;
    std::map<std::string, std::string> str;
    std::vector<std::string> notes;
};
int finish(Report& r); // writes opt.out, returns process exit code

// ---- helpers ---------------------------------------------------------------
std::string hex(const void* p, size_t n);
std::string hex(const std::string& s);
std::string unhex(const std::string& s);
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ULL);
inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string worker_dir();                 // private directory of this worker (exists)
void clear_dir(const std::string& dir);   // removes the files in a scratch dir (non recursive)
void rm_tree(const std::string& dir);
std::string read_file(const std::string& p);
void write_file(const std::string& p, const std::string& d);
void noise_off();                         // send fd 1/2 to /dev/null (library chatter)
extern FILE* term;                        // the real stdout
// Runs body in a forked child; returns wait status, or -1 on timeout (killed).
int in_child(const std::function<void()>& body, double timeout_s);
}
