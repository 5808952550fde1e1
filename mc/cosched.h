// Controlled scheduler: the library's threads (and the harness's clients) run as
// coroutines of one thread; before every access to the shared locations in
// scope, and at every blocking call, the scheduler decides who goes on. All
// decisions are explored depth-first by re-execution; a decision point whose
// global state (shared memory in scope, the stack and registers of every thread,
// and what the oracle has recorded so far) was met before is not branched again,
// so the exploration covers every interleaving, not only those with few preemptions.
#pragma once
#include "rt.h"
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <ucontext.h>

namespace mc {
enum { W_NONE, W_MUTEX, W_POLL, W_SLEEP, W_JOIN, W_ABSENT };
struct Co {
    ucontext_t uc;
    char* stack = nullptr;
    uint64_t regs[7] = {}; // callee-saved registers and stack pointer where it was interrupted
    std::function<void()> body;
    std::string name;
    bool started = false, done = false, dead = false;
    bool killable = false, in_op = false;
    int kind = W_NONE;
    void* obj = nullptr;
    int fd = -1;
    short events = 0;
    bool long_wait = false; // a wait of a second: ends only if nobody stalls inside an operation for as long
    bool yielded = false, timed_out = false;
    uint64_t op_step = 0, wait_step = 0;
    int idle_timeouts = 0;
    int id = 0;
    void* remote_tag = nullptr;
};
struct CoSched : Rt {
    std::vector<std::unique_ptr<Co>> co;
    int cur = -1;
    ucontext_t main;
    std::vector<std::unique_ptr<Co>> spare;
    // exploration
    struct Frame {
        std::vector<int> opt;
        size_t idx;
    };
    std::vector<Frame> stack;
    size_t depth = 0;
    bool branching = false, hit_seen = false;
    std::unordered_set<uint64_t> seen;
    uint64_t steps = 0, max_steps = 20000, transitions = 0;
    int kills_left = 0, max_kills = 0;
    int preempt_left = 0, preempt_bound = -1; // -1: unbounded
    int max_idle_timeouts = 3;
    std::string why_diverged;
    std::vector<std::string> log;
    bool logging = false, endless = false, deadlock = false, diverged = false;
    bool killed_by_pipe = false;
    bool pipe_points = false; // the reading end of the pipe may be closed at any time
    std::unordered_set<void*> locked;
    std::function<bool(int file, uint64_t off, size_t n)> in_scope;
    std::function<uint64_t()> scope_hash;
    std::function<void(Co*)> on_switch; // before c goes on
    std::function<void()> before_pick;
    std::function<void(Co*, int, uint64_t, size_t)> on_private_write;
    uint64_t point_mask = 0;
    int skip = 0;
    std::function<bool(int file, uint64_t off)> payload; // consecutive plain accesses to it are one step
    int in_run = -1; // coroutine whose last point was a payload access

    Co* me() { return cur < 0 ? nullptr : co[cur].get(); }
    int spawn(const std::string& name, std::function<void()> body);
    void begin();               // a new execution
    bool next();                // next schedule; false: everything explored
    void run();                 // until nobody can go on
    void run_until(std::function<bool()>);
    void cleanup();
    std::string describe();
    void point(const char* what, uintptr_t a, size_t n, bool observes);
    void block();
    void op_begin();
    void op_end();

    void read(uintptr_t, size_t) override;
    void write(uintptr_t, size_t) override;
    void atomic(char, uintptr_t, size_t, int) override;
    bool sleep_us(uint64_t) override;

private:
    std::function<bool()> stop;
    bool enabled(Co* c, bool& by_timeout);
    uint64_t key();
    int pick();
    static void entry(unsigned, unsigned);
};
extern CoSched* cs; // the scheduler in charge of new threads
}
