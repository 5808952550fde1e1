// Alphabets and start states shared by the engines that enumerate operation
// sequences, and the breadth-first exploration over them.
#pragma once
#include "world.h"
namespace mc {
struct Theme {
    std::string name;
    Cfg cfg;
    std::vector<Op> init, ops;
    std::vector<std::string> queries, prefixes;
    bool reader = false;
    int depth = 2;
    bool merge = true; // merge states by canonical hash
    uint64_t cap = 0;  // max states expanded per level (0 = all); a cap is reported
    int wlen = 0, adv = 0;  // engine L: writer operations per scenario, bound on preemptions
    size_t qmax = 0;
    std::vector<Op> post; // applied after every sequence, before the comparison
};
Op A(const std::string& k, const std::string& v);
Op P(const std::string& k, const std::string& v);
Op R(const std::string& k);
Op N(char t, long n = 0);
std::string val(const std::string& k, int gen, int len = 0);
std::vector<std::string> strings_over(const std::string& al, int maxlen);
void add_remove(Theme& t, const std::vector<std::string>& ks, bool puts);
void finish_theme(Theme& t, size_t qcap = 400);
Cfg cfg_small();
bool thorough();
Cfg cfg_of(const std::string& n);
Theme th_reuse(int depth);
Theme th_ordered(int n, int first, bool down, int depth);
Theme th_lists(int depth);
Theme th_backup(const std::string& cn, int depth, int rich);
Theme th_space(const std::string& cn, int rich, int mi, int md, int depth);
Theme th_keep(const std::string& cn, int blocks, int rich, int depth);
Theme th_evict(long start, int depth, int variant);
Theme th_pcache(const std::string& cn, int variant, int depth, bool rich);
Theme th_bin3(bool full, int depth);
Theme th_tail(int L, int depth, bool full);
Theme th_fan(int n, int depth, const std::string& stem, bool match);
Theme th_bytes(int depth);
Theme th_values(int depth, bool big);
Theme th_long(int depth, bool full);
Theme th_limits(int depth);
Theme th_life(const Cfg& c, int depth, const char* nm, bool gc, bool reopen, int vlen);
Theme th_mixed(const std::string& cn, int depth, const std::string& extra, int rich);
Theme th_order(int variant, const std::string& cn, int depth);

typedef std::function<void(int theme, const std::vector<uint8_t>& seq, CaseOut& out)> SeqFn;
extern std::vector<Theme> themes;
std::string desc_seq(int th, const std::vector<uint8_t>& s);
// Breadth-first over all sequences of every theme; fn runs one sequence and
// leaves the canonical hash in out.hash (aux: do not extend).
extern std::function<void(Report&)> report_extra; // the engine's own counters
int explore(const SeqFn& fn, double hang_s = 60);
}
