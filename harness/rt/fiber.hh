// Controlled threads: every thread of the code under test is a fibre on one OS thread; all
// pthread mutex/condition/thread operations go through this runtime, so each execution is
// deterministic and its schedule can be enumerated.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace mcrt {
enum class Mode { Seq, Explore };

void start(Mode mode);   // from now on pthread calls are controlled; caller becomes fibre 0
void finish();           // back to uncontrolled; leaves unfinished fibres behind (leaked)
int spawn(const std::function<void()> &fn, const char *name);
// Seq mode: run every runnable fibre until all are blocked or finished
void settle();
bool finished(int id);
bool blocked(int id);    // blocked (on anything)
bool blocked_on_mutex(int id);
bool blocked_on_condition(int id);
int current();
bool active();
// block the calling fibre until the predicate holds (a scheduling point)
void block_until(const std::function<bool()> &pred, const char *what = "wait");
// a scheduling point in Explore mode (no effect in Seq mode)
void yield_point(const char *what);
// Explore mode: fibre 0 waits until all other fibres finished or are blocked for ever
// returns false if some fibre is blocked for ever
bool join_all();
// Explore mode from now on (or Seq again); called by fibre 0 between activities
void set_mode(Mode m, int preemptions = 0);
extern void (*on_switch)(const std::string &);  // told about every choice between fibres
std::string describe();  // state of all fibres

// the harness supplies: how to report a deadlock, how to pick an alternative
extern void (*on_deadlock)(const std::string &what);
extern int (*choose)(int n);            // enumerated choice
extern int preemption_budget;           // Explore mode: remaining preemptions (set before start)
extern uint64_t switches, sched_points, choice_points;

// race detector interface (weak; defined by the instrumented flavour)
void hb_fork(int parent, int child) __attribute__((weak));
void hb_join(int parent, int child) __attribute__((weak));
void hb_acquire(int f, const void *a) __attribute__((weak));
void hb_release(int f, const void *a) __attribute__((weak));
void hb_reset() __attribute__((weak));
}  // namespace mcrt
