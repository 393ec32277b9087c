#include "fiber.hh"
#include "hb.hh"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>

#include <map>
#include <unordered_map>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}  // namespace __cxxabiv1

namespace mcrt {
static const size_t STACK = 1u << 20;

struct Fiber {
    int id = 0;
    std::string name;
    ucontext_t ctx{};
    char *stack = nullptr;
    std::function<void()> fn;
    bool done = false;
    // blocking state
    enum { Run, Mutex, Cond, Pred, Join } st = Run;
    const void *obj = nullptr;
    bool signalled = false;
    bool timed = false;
    std::function<bool()> pred;
    int join_target = -1;
    void *retval = nullptr;
    char eh[2 * sizeof(void *)] = {};
    void *fake_stack = nullptr;
};

void (*on_deadlock)(const std::string &) = nullptr;
int (*choose)(int) = nullptr;
int preemption_budget = 0;
uint64_t switches = 0, sched_points = 0, choice_points = 0;

static bool g_active = false;
static Mode g_mode = Mode::Seq;
static std::vector<Fiber *> g_fibers;
static Fiber *g_cur = nullptr;
static std::unordered_map<const void *, std::pair<int, int>> g_owner;  // mutex -> owner, depth
static std::vector<char *> g_free_stacks;
static bool g_in_rt = false;

bool active() { return g_active && !g_in_rt; }
int current() { return g_cur ? g_cur->id : 0; }

static bool runnable(Fiber *f) {
    if (f->done) return false;
    switch (f->st) {
        case Fiber::Run:
            return true;
        case Fiber::Mutex:
            return g_owner.find(f->obj) == g_owner.end();
        case Fiber::Cond:
            return f->signalled;
        case Fiber::Pred:
            return f->pred();
        case Fiber::Join:
            return g_fibers[f->join_target]->done;
    }
    return false;
}

#ifdef MC_ASAN
// main stack bounds, needed to switch back to fibre 0
static const void *g_main_bottom = nullptr;
static size_t g_main_size = 0;
#endif

static void switch_to(Fiber *to) {
    if (to == g_cur) return;
    auto *from = g_cur;
    switches++;
    memcpy(from->eh, __cxxabiv1::__cxa_get_globals(), sizeof(from->eh));
    memcpy(__cxxabiv1::__cxa_get_globals(), to->eh, sizeof(to->eh));
    g_cur = to;
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(from->done ? nullptr : &from->fake_stack,
                                   to->stack ? to->stack : (const char *)g_main_bottom,
                                   to->stack ? STACK : g_main_size);
#endif
    swapcontext(&from->ctx, &to->ctx);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(g_cur->fake_stack, nullptr, nullptr);
#endif
}

std::string describe() {
    std::string s;
    static const char *n[] = {"runnable", "mutex", "condition", "wait", "join"};
    for (auto *f : g_fibers) {
        s += f->name + ":" + (f->done ? "done" : n[f->st]) + " ";
    }
    return s;
}

// the current fibre cannot go on (or has finished): pick somebody else
static void deadlock() {
    if (on_deadlock) on_deadlock(describe());
    fprintf(stderr, "deadlock: %s\n", describe().c_str());
    _exit(3);
}

static int pick(std::vector<Fiber *> &cands) {
    if (cands.size() == 1) return 0;
    choice_points++;
    Watch off(false);
    return choose ? choose((int)cands.size()) : 0;
}

void (*on_switch)(const std::string &) = nullptr;
static void tell(const char *what, const char *kind, Fiber *to) {
    if (!on_switch) return;
    g_in_rt = true;
    Watch off(false);
    auto w = hb_where ? hb_where() : std::string();
    on_switch(std::string(kind) + " " + g_cur->name + " at " + what + (w.empty() ? "" : " in " + w) + " -> " + to->name);
    g_in_rt = false;
}

// called when the current fibre blocked or finished
static void reschedule_blocked() {
    while (true) {
        if (g_mode == Mode::Seq) {
            // run others in creation order, fibre 0 (the driver) last
            Fiber *next = nullptr;
            for (size_t i = 1; i < g_fibers.size(); i++)
                if (g_fibers[i] != g_cur && runnable(g_fibers[i])) {
                    next = g_fibers[i];
                    break;
                }
            if (!next && runnable(g_fibers[0]) && g_cur != g_fibers[0]) next = g_fibers[0];
            if (!g_cur->done && runnable(g_cur)) return;
            if (!next) deadlock();
            switch_to(next);
        } else {
            // the driver waits for everybody else, so it only runs if nobody else can
            std::vector<Fiber *> c;
            for (size_t i = 1; i < g_fibers.size(); i++)
                if (runnable(g_fibers[i])) c.push_back(g_fibers[i]);
            if (c.empty() && runnable(g_fibers[0])) c.push_back(g_fibers[0]);
            if (c.empty()) deadlock();
            auto *n = c[pick(c)];
            if (n == g_cur) return;
            if (c.size() > 1) tell(g_cur->done ? "end" : "blocking", "switch:", n);
            switch_to(n);
        }
        if (!g_cur->done && runnable(g_cur)) return;
    }
}

void yield_point(const char *what) {
    if (!g_active || g_mode != Mode::Explore || g_in_rt || g_cur->id == 0) return;
    sched_points++;
    if (preemption_budget <= 0) return;
    std::vector<Fiber *> c{g_cur};
    for (size_t i = 1; i < g_fibers.size(); i++)
        if (g_fibers[i] != g_cur && runnable(g_fibers[i])) c.push_back(g_fibers[i]);
    if (c.size() == 1) return;
    int k = pick(c);
    if (k == 0) return;
    preemption_budget--;
    tell(what, "preempted:", c[k]);
    switch_to(c[k]);
}

static void trampoline() {
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
    Fiber *self = g_cur;
    self->fn();
    self->done = true;
    self->fn = nullptr;
    reschedule_blocked();
    abort();
}

int spawn(const std::function<void()> &fn, const char *name) {
    auto *f = new Fiber();
    f->id = (int)g_fibers.size();
    f->name = name;
    f->fn = fn;
    if (!g_free_stacks.empty()) {
        f->stack = g_free_stacks.back();
        g_free_stacks.pop_back();
    } else {
        f->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STACK;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, trampoline, 0);
    g_fibers.push_back(f);
    if (hb_fork) hb_fork(g_cur->id, f->id);
    return f->id;
}

void start(Mode mode) {
    g_mode = mode;
    for (auto *f : g_fibers) delete f;
    g_fibers.clear();
    g_owner.clear();
    auto *f = new Fiber();
    f->name = "driver";
    g_fibers.push_back(f);
    g_cur = f;
#ifdef MC_ASAN
    if (!g_main_bottom) {
        pthread_attr_t a;
        pthread_getattr_np(pthread_self(), &a);
        void *b;
        size_t s;
        pthread_attr_getstack(&a, &b, &s);
        g_main_bottom = b;
        g_main_size = s;
        pthread_attr_destroy(&a);
    }
#endif
    if (hb_reset) hb_reset();
    if (mode == Mode::Explore && hb_begin) hb_begin();
    g_active = true;
}

void finish() {
    g_active = false;
    if (hb_end) hb_end();
    for (auto *f : g_fibers) {
        if (f->stack) {
            if (f->done)
                g_free_stacks.push_back(f->stack);
            // else: the stack of an unfinished fibre is left alone
            f->stack = nullptr;
        }
    }
}

void settle() {
    // fibre 0 runs everybody else until nothing is runnable
    while (true) {
        Fiber *next = nullptr;
        for (size_t i = 1; i < g_fibers.size(); i++)
            if (runnable(g_fibers[i])) {
                next = g_fibers[i];
                break;
            }
        if (!next) break;
        switch_to(next);
    }
    for (size_t i = 1; i < g_fibers.size(); i++)
        if (!g_fibers[i]->done && g_fibers[i]->st == Fiber::Mutex) deadlock();
}

bool join_all() {
    while (true) {
        std::vector<Fiber *> c;
        for (size_t i = 1; i < g_fibers.size(); i++)
            if (runnable(g_fibers[i])) c.push_back(g_fibers[i]);
        if (c.empty()) break;
        auto *n = c[g_mode == Mode::Explore ? pick(c) : 0];
        if (c.size() > 1) tell("start", "switch:", n);
        switch_to(n);
    }
    bool all = true;
    for (size_t i = 1; i < g_fibers.size(); i++) {
        if (g_fibers[i]->done) continue;
        all = false;
        if (g_fibers[i]->st == Fiber::Mutex || g_fibers[i]->st == Fiber::Join) deadlock();
    }
    return all;
}

void set_mode(Mode m, int preemptions) {
    g_mode = m;
    preemption_budget = preemptions;
    if (m == Mode::Explore && hb_begin) hb_begin();
}

bool finished(int id) { return g_fibers[id]->done; }
bool blocked(int id) { return !g_fibers[id]->done && !runnable(g_fibers[id]); }
bool blocked_on_mutex(int id) {
    return !g_fibers[id]->done && g_fibers[id]->st == Fiber::Mutex && !runnable(g_fibers[id]);
}

bool blocked_on_condition(int id) {
    return !g_fibers[id]->done && g_fibers[id]->st == Fiber::Cond && !runnable(g_fibers[id]);
}

static void block(int st, const void *obj) {
    auto *self = g_cur;
    self->st = (decltype(self->st))st;
    self->obj = obj;
    if (!runnable(self)) {
        if (g_mode == Mode::Seq && self->id != 0) {
            // hand control back: prefer the driver, which runs the others
            while (!runnable(self)) {
                if (runnable(g_fibers[0]))
                    switch_to(g_fibers[0]);
                else
                    reschedule_blocked();
            }
        } else {
            reschedule_blocked();
        }
    }
    self->st = Fiber::Run;
}

void block_until(const std::function<bool()> &pred, const char *) {
    if (!g_active) {
        if (!pred()) abort();
        return;
    }
    yield_point("wait");
    g_cur->pred = pred;
    block(Fiber::Pred, nullptr);
    g_cur->pred = nullptr;
}

static int m_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

static void mutex_lock(pthread_mutex_t *m) {
    yield_point("lock");
    auto it = g_owner.find(m);
    if (it != g_owner.end() && it->second.first == g_cur->id) {
        if (m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) {
            it->second.second++;
            return;
        }
        // self deadlock
        deadlock();
    }
    block(Fiber::Mutex, m);
    g_owner[m] = {g_cur->id, 1};
    if (hb_acquire) hb_acquire(g_cur->id, m);
}

static void mutex_unlock(pthread_mutex_t *m, bool yield) {
    auto it = g_owner.find(m);
    if (it == g_owner.end()) return;
    if (--it->second.second > 0) return;
    g_owner.erase(it);
    if (hb_release) hb_release(g_cur->id, m);
    if (yield) yield_point("unlock");
}
}  // namespace mcrt

using namespace mcrt;

#define REAL(name) \
    static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!active()) {
        REAL(pthread_mutex_lock);
        return real(m);
    }
    mutex_lock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!active()) {
        REAL(pthread_mutex_trylock);
        return real(m);
    }
    yield_point("trylock");
    auto it = g_owner.find(m);
    if (it != g_owner.end()) {
        if (it->second.first == g_cur->id && m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) {
            it->second.second++;
            return 0;
        }
        return EBUSY;
    }
    g_owner[m] = {g_cur->id, 1};
    if (hb_acquire) hb_acquire(g_cur->id, m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!active()) {
        REAL(pthread_mutex_unlock);
        return real(m);
    }
    mutex_unlock(m, false);
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    auto *self = g_cur;
    yield_point("wait on condition");
    self->signalled = false;
    mutex_unlock(m, false);
    self->timed = timed;
    self->st = Fiber::Cond;
    block(Fiber::Cond, c);
    self->signalled = false;
    block(Fiber::Mutex, m);
    g_owner[m] = {g_cur->id, 1};
    if (hb_acquire) hb_acquire(g_cur->id, m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active()) {
        REAL(pthread_cond_wait);
        return real(c, m);
    }
    return cond_wait(c, m, false);
}
// timed waits: a time-out is never taken (it only matters for liveness of polling code)
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!active()) {
        REAL(pthread_cond_timedwait);
        return real(c, m, t);
    }
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const struct timespec *t) {
    if (!active()) {
        REAL(pthread_cond_clockwait);
        return real(c, m, k, t);
    }
    return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!active()) {
        REAL(pthread_cond_signal);
        return real(c);
    }
    yield_point("signal");
    for (auto *f : g_fibers)
        if (!f->done && f->st == Fiber::Cond && f->obj == c && !f->signalled) {
            f->signalled = true;
            break;
        }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!active()) {
        REAL(pthread_cond_broadcast);
        return real(c);
    }
    yield_point("broadcast");
    for (auto *f : g_fibers)
        if (!f->done && f->st == Fiber::Cond && f->obj == c) f->signalled = true;
    return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
    if (!active()) {
        REAL(pthread_create);
        return real(t, a, fn, arg);
    }
    int id = spawn(
        [fn, arg]() {
            auto *r = fn(arg);
            g_cur->retval = r;
        },
        "thread");
    g_fibers[id]->name += std::to_string(id);
    *t = (pthread_t)(0x100000 + id);
    yield_point("create");
    return 0;
}
int pthread_join(pthread_t t, void **r) {
    if (!active()) {
        if ((uint64_t)t >= 0x100000 && (uint64_t)t < 0x200000) return 0;
        REAL(pthread_join);
        return real(t, r);
    }
    int id = (int)((uint64_t)t - 0x100000);
    yield_point("join");
    g_cur->join_target = id;
    block(Fiber::Join, nullptr);
    if (hb_join) hb_join(g_cur->id, id);
    if (r) *r = g_fibers[id]->retval;
    return 0;
}
int pthread_detach(pthread_t t) noexcept {
    if ((uint64_t)t >= 0x100000 && (uint64_t)t < 0x200000) return 0;
    REAL(pthread_detach);
    return real(t);
}
int sched_yield(void) noexcept {
    if (!active()) {
        REAL(sched_yield);
        return real();
    }
    yield_point("yield");
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) {
    if (!active()) {
        REAL(clock_nanosleep);
        return real(k, fl, a, b);
    }
    yield_point("sleep");
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!active()) {
        REAL(nanosleep);
        return real(a, b);
    }
    yield_point("sleep");
    return 0;
}
}
