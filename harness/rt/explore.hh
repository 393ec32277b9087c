// Exhaustive enumeration: every check is a body run once per path of its choice tree, stateless,
// sharded over worker processes. The first violation stops the run.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {
enum Tier { Quick, Thorough };
extern Tier tier;
inline bool thorough() { return tier == Thorough; }

int choose(int n);  // enumerated choice 0..n-1 (one alternative per execution)
[[noreturn]] void fail(const std::string &what);  // property violated by the current execution
// like fail(), but if a line of the known-findings file has this signature: counts it, and the
// execution is abandoned
void fail_or_known(const std::string &signature, const std::string &what);
struct Abandon {};
void trace(const std::string &line);  // shown with a violation and in replays
void note(const std::string &what);    // the case being run, shown if the process dies; a sign of progress
void checkpoint();                     // within long bodies: leaves when the time is used up (throws)
void sample(const std::string &s);    // kept in the evidence (a few)
void state(uint64_t hash);            // a distinct (model) state reached
void transition(uint64_t n = 1);
void validated(uint64_t n = 1);       // an implementation trace compared with the model
void evaluation(uint64_t n = 1);
void nontrivial(uint64_t hash);       // a distinct non-trivial case
void counter(const char *name, uint64_t n);
uint64_t hash(const std::string &s, uint64_t seed = 1469598103934665603ull);
const std::string &scratch();         // private scratch directory of this worker
// the rest of the body is run once per path, each time in a process of its own that starts here
// (no choices before); done() ends such a process early
void snapshot();
void done();
bool replaying();

struct Check {
    std::string id;
    // number of top-level cases and the body for one of them
    std::function<size_t()> tops;
    std::function<void(size_t)> body;
    bool fork_each = false;  // run each top-level case in its own process (static state)
    size_t shards = 1;       // workers among which the choice tree of one case is divided
    double limit_s = 420;    // stop enumerating after this (not exhaustive any more)
    double limit_thorough_s = 3000;
    double hang_s = 60;
    bool level_model = true;
};
int main_(int argc, char **argv, const Check &c);
}  // namespace mc
