#include "cosched.h"
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <map>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

namespace mc {
CoSched* cs;
extern "C" uint64_t rt_regs[8];
extern "C" uint64_t rt_clear;
// the state of the thread that called the hook
static inline void note(Co* c)
{
    if (c)
        for (int i = 0; i < 7; i++)
            c->regs[i] = rt_regs[i];
}
static const size_t STACK = 512 * 1024;

int CoSched::spawn(const std::string& name, std::function<void()> body)
{
    // The same thread has the same stack in every execution, so that states of different executions can be compared.
    std::unique_ptr<Co> c;
    size_t id = co.size();
    if (spare.size() > id && spare[id])
        c = std::move(spare[id]);
    else {
        c = std::make_unique<Co>();
        c->stack = (char*)aligned_alloc(4096, STACK);
        memset(c->stack, 0, STACK);
    }
    char* st = c->stack;
    c->~Co();
    new (c.get()) Co();
    c->stack = st;
    c->name = name;
    c->body = body;
    c->id = (int)id;
    co.push_back(std::move(c));
    return (int)id;
}
void CoSched::entry(unsigned lo, unsigned hi)
{
    CoSched* s = (CoSched*)(((uintptr_t)hi << 32) | lo);
    Co* c = s->me();
    rt_leave();
    c->body();
    rt_inside(true);
    c->done = true;
    c->kind = W_NONE;
    swapcontext(&c->uc, &s->main);
    abort();
}
// Runs until nobody can go on or the stop condition holds. Every decision is made on the caller's stack.
void CoSched::run()
{
    cur = -1;
    rt_inside(true);
    for (;;) {
        int n = pick();
        cur = n;
        if (n < 0)
            break;
        Co* c = co[n].get();
        if (on_switch)
            on_switch(c);
        if (!c->started) {
            c->started = true;
            memset(c->stack + STACK - 64 * 1024, 0, 64 * 1024);
            getcontext(&c->uc);
            c->uc.uc_stack.ss_sp = c->stack;
            c->uc.uc_stack.ss_size = STACK;
            c->uc.uc_link = nullptr;
            uintptr_t t = (uintptr_t)this;
            makecontext(&c->uc, (void (*)())entry, 2, (unsigned)t, (unsigned)(t >> 32));
        }
        swapcontext(&main, &c->uc);
    }
    cur = -1;
    rt_leave();
}
void CoSched::begin()
{
    cleanup();
    depth = 0;
    steps = 0;
    kills_left = max_kills;
    preempt_left = preempt_bound;
    branching = false;
    hit_seen = false;
    killed_by_pipe = endless = deadlock = diverged = false;
    locked.clear();
    log.clear();
    in_run = -1;
    skip = 0;
}
void CoSched::cleanup()
{
    if (spare.size() < co.size())
        spare.resize(co.size());
    for (size_t i = 0; i < co.size(); i++)
        spare[i] = std::move(co[i]);
    co.clear();
    cur = -1;
}
bool CoSched::next()
{
    while (!stack.empty() && stack.back().idx + 1 >= stack.back().opt.size())
        stack.pop_back();
    if (stack.empty())
        return false;
    stack.back().idx++;
    return true;
}
std::string CoSched::describe()
{
    std::string s;
    int last = -1;
    for (auto& l : log) {
        s += "\n    " + l;
        (void)last;
    }
    return s;
}
void CoSched::op_begin()
{
    Co* c = me();
    if (c) {
        c->in_op = true;
        c->op_step = steps;
    }
}
void CoSched::op_end()
{
    Co* c = me();
    if (c)
        c->in_op = false;
}
bool CoSched::enabled(Co* c, bool& by_timeout)
{
    by_timeout = false;
    if (c->done || c->dead)
        return false;
    switch (c->kind) {
    case W_NONE: return true;
    case W_MUTEX: return !locked.count(c->obj);
    case W_JOIN: return co[c->fd]->done;
    case W_POLL: {
        struct pollfd p = { c->fd, c->events, 0 };
        if (syscall(7 /* poll */, &p, 1, 0) != 0)
            return true;
        break;
    }
    }
    if (c->kind == W_ABSENT)
        return false;
    by_timeout = true;
    if (c->kind == W_SLEEP && !c->long_wait)
        return true;
    // a wait of a second runs out only if nobody was inside one operation all the time
    for (auto& o : co)
        if (o.get() != c && !o->done && !o->dead && o->in_op && o->op_step <= c->wait_step)
            return false;
    return true;
}
uint64_t CoSched::key()
{
    uint64_t h = scope_hash ? scope_hash() : 0;
    for (auto& c : co) {
        h = hmix(h, (c->done ? 1 : 0) | (c->dead ? 2 : 0) | (c->kind << 2) | (c->yielded ? 64 : 0) | (c->in_op ? 128 : 0) | (c->idle_timeouts << 8) | (c->started ? 1 << 16 : 0));
        if (c->started && !c->done && !c->dead) {
            h = hash_bytes((void*)c->regs[6], (uintptr_t)c->stack + STACK - c->regs[6], h);
            for (int r = 0; r < 7; r++)
                h = hmix(h, c->regs[r]);
        }
        int st = 0;
        if (c->long_wait && (c->kind == W_POLL || c->kind == W_SLEEP))
            for (auto& o : co)
                if (o->in_op && o->op_step <= c->wait_step)
                    st |= 1 << o->id;
        h = hmix(h, st);
    }
    h = hmix(h, in_run);
    h = hmix(h, locked.size());
    h = hmix(h, kills_left);
    if (preempt_bound >= 0)
        h = hmix(h, preempt_left * 64 + cur + 1);
    return h;
}
int CoSched::pick()
{
    if (before_pick)
        before_pick();
    if (stop && stop())
        return -1;
    if (++steps > max_steps) {
        endless = true;
        return -1;
    }
    std::vector<int> opt, late;
    bool by;
    auto add = [&](int i) {
        Co* c = co[i].get();
        if (!enabled(c, by))
            return;
        if (by && c->long_wait) {
            if (c->idle_timeouts < max_idle_timeouts)
                late.push_back(i);
        } else if (c->yielded)
            late.insert(late.begin(), i + 2000); // only if nobody else can go on
        else
            opt.push_back(i);
    };
    if (cur >= 0 && (size_t)cur < co.size())
        add(cur);
    for (size_t i = 1; i <= co.size(); i++) {
        int j = (std::max(cur, 0) + i) % co.size();
        if (j != cur)
            add(j);
    }
    bool cur_on = cur >= 0 && !opt.empty() && opt[0] == cur;
    for (int l : late)
        if (l < 2000)
            opt.push_back(l);
    if (opt.empty())
        for (int l : late)
            if (l >= 2000)
                opt.push_back(l - 2000);
    if (opt.empty()) {
        for (auto& c : co)
            if (!c->done && !c->dead && c->kind != W_POLL && c->kind != W_SLEEP)
                deadlock = true;
        return -1;
    }
    int choice = opt[0];
    if (branching) {
        if (depth < stack.size()) {
            choice = stack[depth].opt[stack[depth].idx];
            if (choice < 1000 && std::find(opt.begin(), opt.end(), choice) == opt.end()) {
                diverged = true; // the execution does not repeat
                why_diverged = strf("at decision %zu of %zu: %d of", depth, stack.size(), choice);
                for (int o : stack[depth].opt)
                    why_diverged += strf(" %d", o);
                why_diverged += " now";
                for (int o : opt)
                    why_diverged += strf(" %d", o);
                for (auto& c : co)
                    why_diverged += strf("; %s kind %d done %d op %d step %llu wait %llu idle %d", c->name.c_str(), c->kind, c->done, c->in_op, (unsigned long long)c->op_step, (unsigned long long)c->wait_step, c->idle_timeouts);
                return -1;
            }
            depth++;
        } else if (!hit_seen) {
            if (seen.insert(key()).second) {
                if (preempt_bound >= 0 && cur_on && preempt_left <= 0)
                    opt.resize(1);
                if (kills_left > 0)
                    for (auto& c : co)
                        if (c->killable && c->in_op && !c->done && !c->dead)
                            opt.push_back(1000 + c->id);
                stack.push_back({ opt, 0 });
                depth++;
                choice = opt[0];
            } else
                hit_seen = true; // go on to the end without branching
        }
        transitions++;
    }
    if (choice >= 1000) {
        Co* c = co[choice - 1000].get();
        c->dead = true;
        c->in_op = false;
        kills_left--;
        if (logging)
            log.push_back(c->name + " dies");
        return pick();
    }
    if (cur_on && choice != cur)
        preempt_left--;
    for (auto& c : co)
        if (c->id != choice) {
            c->yielded = false;
        }
    Co* c = co[choice].get();
    bool b2;
    enabled(c, b2);
    c->timed_out = b2;
    if (b2 && c->long_wait)
        c->idle_timeouts++;
    else if (!b2)
        for (auto& o : co)
            if (o.get() != c || c->kind == W_POLL)
                o->idle_timeouts = 0;
    return choice;
}
void CoSched::block()
{
    Co* c = me();
    if (!c)
        return;
    c->wait_step = steps;
    in_run = -1;
    bool in = rt_inside(true);
    swapcontext(&c->uc, &main);
    rt_clear = 1;
    for (int i = 0; i < 7; i++)
        rt_regs[i] = c->regs[i];
    c->kind = W_NONE;
    rt_inside(in);
}
void CoSched::run_until(std::function<bool()> f)
{
    stop = f;
    run();
    stop = nullptr;
}
void CoSched::point(const char* what, uintptr_t a, size_t n, bool observes)
{
    Co* c = me();
    if (!c)
        return;
    bool in = rt_inside(true);
    uint64_t off = 0;
    const Region* r = a ? rt_region(a) : nullptr;
    if (r)
        off = r->off + (a - r->a);
    bool pay = r && what[0] != 'a' && payload && payload(r->file, off);
    if (!pay || in_run != cur)
        block();
    in_run = pay ? cur : -1;
    if (logging) {
        uint64_t v = 0;
        if (a && n <= 8)
            memcpy(&v, (void*)a, n);
        char b[200];
        snprintf(b, sizeof b, "%-10s %s %s+0x%llx/%zu%s", c->name.c_str(), what, r ? rt_path(r->file).c_str() + rt_path(r->file).rfind('/') + 1 : "", (unsigned long long)off, n,
            observes ? strf(" = %llx", (unsigned long long)v).c_str() : "");
        log.push_back(b);
    }
    rt_inside(in);
}
void CoSched::read(uintptr_t a, size_t n)
{
    if (!skip)
        note(me());
    if (cur < 0)
        return;
    if (skip) {
        skip--;
        return;
    }
    const Region* r = rt_region(a);
    if (r && in_scope(r->file, r->off + (a - r->a), n))
        point("load", a, n, true);
}
void CoSched::write(uintptr_t a, size_t n)
{
    if (!skip)
        note(me());
    if (cur < 0)
        return;
    if (skip) {
        skip--;
        return;
    }
    const Region* r = rt_region(a);
    if (!r)
        return;
    if (in_scope(r->file, r->off + (a - r->a), n))
        point("store", a, n, false);
    else if (on_private_write)
        on_private_write(me(), r->file, r->off + (a - r->a), n);
}
void CoSched::atomic(char k, uintptr_t a, size_t n, int)
{
    note(me());
    skip = 0;
    if (cur < 0 || k == 'f')
        return;
    const Region* r = rt_region(a);
    if (!r)
        return;
    if (in_scope(r->file, r->off + (a - r->a), n)) {
        point(k == 'l' ? "atomic load" : k == 's' ? "atomic store" : "atomic rmw", a, n, k != 's');
        skip = k == 'r' ? 2 : 1;
    }
}
bool CoSched::sleep_us(uint64_t us)
{
    Co* c = me();
    if (!c)
        return true;
    note(c);
    bool op = c->in_op;
    c->in_op = false;
    c->kind = W_SLEEP;
    c->long_wait = us >= 100000;
    c->yielded = !c->long_wait;
    block();
    if (op)
        op_begin();
    return true;
}
}
using namespace mc;

#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
extern "C" {
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
    if (!cs)
        return __real_pthread_create(t, a, f, x);
    int i = cs->spawn("writer", [=] { f(x); });
    *t = (pthread_t)(0x1000 + i);
    return 0;
}
REAL(int, pthread_join, pthread_t, void**);
int rt_c_pthread_join(pthread_t t, void** r)
{
    if (!cs)
        return __real_pthread_join(t, r);
    int i = (int)((uintptr_t)t - 0x1000);
    if (cs->me()) {
        Co* c = cs->me();
        note(c);
        c->kind = W_JOIN;
        c->fd = i;
        cs->block();
    } else {
        cs->branching = false;
        cs->co[i]->idle_timeouts = 0;
        cs->steps = 0;
        cs->run_until([&] { return cs->co[i]->done; });
        if (!cs->co[i]->done)
            cs->endless = true;
    }
    return 0;
}
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
int rt_c_pthread_mutex_lock(pthread_mutex_t* m)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return cs ? 0 : __real_pthread_mutex_lock(m);
    if (cs->locked.count(m) || cs->branching) {
        c->kind = W_MUTEX;
        c->obj = m;
        cs->block();
    }
    cs->locked.insert(m);
    return 0;
}
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
int rt_c_pthread_mutex_trylock(pthread_mutex_t* m)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return cs ? 0 : __real_pthread_mutex_trylock(m);
    cs->point("trylock", 0, 0, false);
    bool l = cs->locked.insert(m).second;
    return l ? 0 : EBUSY;
}
static int timed(pthread_mutex_t* m)
{
    // waits up to a second: ends with the lock, or (as other waits of a second) without it
    Co* c = cs->me();
    c->kind = W_MUTEX;
    c->obj = m;
    cs->block();
    cs->locked.insert(m);
    return 0;
}
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
int rt_c_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return cs ? 0 : __real_pthread_mutex_timedlock(m, t);
    return timed(m);
}
REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
int rt_c_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return cs ? 0 : __real_pthread_mutex_clocklock(m, k, t);
    return timed(m);
}
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return cs ? 0 : __real_pthread_mutex_unlock(m);
    cs->locked.erase(m);
    return 0;
}
REAL(int, poll, struct pollfd*, nfds_t, int);
int rt_c_poll(struct pollfd* p, nfds_t n, int t)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c)
        return __real_poll(p, n, t);
    c->kind = W_POLL;
    c->fd = p->fd;
    c->events = p->events;
    c->long_wait = t >= 100 || t < 0;
    if (!c->long_wait)
        c->kind = W_NONE; // does not wait here, but others may go first
    cs->block();
    int r = __real_poll(p, n, 0);
    if (cs->logging)
        cs->log.push_back(strf("%-10s %s", c->name.c_str(), t >= 100 ? r ? "woken" : "waited a second" : r ? "signals" : "cannot signal"));
    return r;
}
REAL(ssize_t, write, int, const void*, size_t);
ssize_t rt_c_write(int fd, const void* b, size_t n)
{
    Co* c = cs ? cs->me() : nullptr;
    note(c);
    if (!c || !cs->pipe_points)
        return __real_write(fd, b, n);
    // the reading end may be closed meanwhile (signal masks are per thread, as the coroutines are not)
    sigset_t mine;
    pthread_sigmask(SIG_SETMASK, nullptr, &mine);
    sigset_t none = mine;
    sigdelset(&none, SIGPIPE);
    pthread_sigmask(SIG_SETMASK, &none, nullptr);
    c->kind = W_NONE;
    cs->block();
    signal(SIGPIPE, SIG_IGN);
    ssize_t r = __real_write(fd, b, n);
    if (r < 0 && errno == EPIPE && !sigismember(&mine, SIGPIPE))
        cs->killed_by_pipe = true;
    int e = errno;
    pthread_sigmask(SIG_SETMASK, &mine, nullptr);
    errno = e;
    return r;
}
}

extern "C" int64_t _ZNSt6chrono3_V212steady_clock3nowEv()
{
    if (cs && cs->me())
        return 1000000000;
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
