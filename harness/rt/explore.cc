#include "explore.hh"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <map>
#include <set>

#include "fiber.hh"
#include "hb.hh"
#include "mj.hh"

namespace mc {
Tier tier = Quick;
static const int MAXW = 16;
static const size_t TAB = 1u << 22;

struct Slot {
    std::atomic<uint64_t> execs;
    std::atomic<uint64_t> transitions, validated, evals;
    std::atomic<int> top;      // current top-level case
    std::atomic<int> npath;
    int path[16384], arity[16384];
    std::atomic<int> status;   // 0 running, 1 violation, 2 finished
    char msg[60000];
    char note[400];
    std::atomic<uint64_t> beat;  // grows while the body makes progress
    std::atomic<uint64_t> known[16];
};
struct Shared {
    std::atomic<uint64_t> next_top, tops_done;
    std::atomic<int> stop, truncated, first_violation;
    std::atomic<uint64_t> nstates, nnon;
    std::atomic<int> nsamples;
    char samples[8][1500];
    Slot slot[MAXW];
    struct {
        char name[48];
        std::atomic<uint64_t> v;
    } counters[64];
    std::atomic<uint64_t> states[TAB];
    std::atomic<uint64_t> nontriv[TAB];
};
static Shared *S;
static Slot *slot;
static std::vector<std::pair<int, int>> path;  // (n, chosen)
static size_t depth;
static std::string trace_buf;
static std::string g_scratch;
static double g_deadline = 1e300;
static bool g_replay = false;
static std::vector<std::string> g_known;  // signatures
static std::vector<std::string> g_known_text;

bool replaying() { return g_replay; }
const std::string &scratch() { return g_scratch; }

uint64_t hash(const std::string &s, uint64_t h) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    h ^= h >> 29;
    return h ? h : 1;
}

int choose(int n) {
    if (n <= 1) return 0;
    if (depth < path.size()) {
        if (!g_replay && path[depth].first != n) {
            fail("harness: nondeterministic choice tree");
        }
        path[depth].first = n;
    } else {
        path.emplace_back(n, 0);
    }
    int r = path[depth].second;
    if (depth < 16384) {
        slot->path[depth] = r;
        slot->arity[depth] = n;
        slot->npath = (int)depth + 1;
    }
    depth++;
    return r;
}

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

[[noreturn]] void fail(const std::string &what) {
    std::string m = what + "\n--- trace ---\n" + trace_buf;
    if (m.size() >= sizeof(slot->msg)) m.resize(sizeof(slot->msg) - 1);
    memcpy(slot->msg, m.c_str(), m.size() + 1);
    slot->status = 1;
    if (g_replay) {
        printf("VIOLATED: %s\n", m.c_str());
        fflush(stdout);
    }
    _exit(42);
}

void fail_or_known(const std::string &sig, const std::string &what) {
    for (size_t i = 0; i < g_known.size() && i < 16; i++)
        if (g_known[i] == sig) {
            slot->known[i]++;
            throw Abandon{};
        }
    fail("[" + sig + "] " + what);
}

void trace(const std::string &l) {
    if (trace_buf.size() < 40000) {
        trace_buf += l;
        trace_buf += '\n';
    }
    if (g_replay) printf("%s\n", l.c_str());
}
void note(const std::string &w) {
    auto n = std::min(w.size(), sizeof(slot->note) - 1);
    memcpy(slot->note, w.data(), n);
    slot->note[n] = 0;
    slot->beat++;
}
void sample(const std::string &s) {
    if (S->nsamples.load() >= 8) return;
    int i = S->nsamples.fetch_add(1);
    if (i < 8) {
        auto t = s.size() > 500 ? s.substr(0, 500) + "..." : s;
        strncpy(S->samples[i], t.c_str(), sizeof(S->samples[i]) - 1);
    }
}
static void insert(std::atomic<uint64_t> *t, std::atomic<uint64_t> &cnt, uint64_t h) {
    if (h == 0) h = 1;
    if (cnt.load(std::memory_order_relaxed) > TAB * 3 / 4) return;
    for (uint64_t i = h;; i++) {
        auto &e = t[i & (TAB - 1)];
        uint64_t v = e.load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            uint64_t z = 0;
            if (e.compare_exchange_strong(z, h)) {
                cnt++;
                return;
            }
            if (z == h) return;
        }
    }
}
void state(uint64_t h) { insert(S->states, S->nstates, h); }
void nontrivial(uint64_t h) { insert(S->nontriv, S->nnon, h); }
void transition(uint64_t n) { slot->transitions += n; }
void validated(uint64_t n) { slot->validated += n; }
void evaluation(uint64_t n) { slot->evals += n; }
void checkpoint() {
    if (now() > g_deadline) {
        S->truncated = 1;
        throw Abandon();
    }
}
void counter(const char *name, uint64_t n) {
    for (auto &c : S->counters) {
        if (c.name[0] == 0) strncpy(c.name, name, 47);
        if (!strcmp(c.name, name)) {
            c.v += n;
            return;
        }
    }
}

static void mkscratch(const std::string &base, int w) {
    g_scratch = base + "/w" + std::to_string(w);
    mkdir(g_scratch.c_str(), 0755);
}

void done();
static void run_one(const Check &c, size_t top) {
    trace_buf.clear();
    depth = 0;
    slot->npath = 0;
    slot->note[0] = 0;
    try {
        c.body(top / c.shards);
    } catch (Abandon &) {
    } catch (std::exception &e) {
        fail(std::string("uncaught exception: ") + e.what());
    }
    done();
    slot->execs++;
    slot->beat++;
}

// the next path of the tree, if there is one
static bool next_path(const Check &c, size_t top) {
    path.resize(depth < path.size() ? depth : path.size());
    while (true) {
        while (!path.empty() && path.back().second + 1 >= path.back().first) path.pop_back();
        if (path.empty() || c.shards == 1) break;
        // the position of the first deviation decides who explores it
        bool first = path.back().second == 0;
        for (size_t i = 0; first && i + 1 < path.size(); i++) first = path[i].second == 0;
        if (!first || (path.size() - 1) % c.shards == top % c.shards) break;
        path.pop_back();
    }
    if (path.empty()) return false;
    path.back().second++;
    return true;
}

// all paths of one top-level case
static const Check *g_check;
static double g_limit = 1e300;
static size_t g_top;
static bool g_child = false;
static void run_top(const Check &c, size_t top, double deadline) {
    slot->top = (int)top;
    g_check = &c;
    g_limit = deadline;
    g_top = top;
    path.clear();
    while (true) {
        run_one(c, top);
        if (!next_path(c, top)) break;
        if (S->stop) return;
        if (now() > deadline) {
            S->truncated = 1;
            return;
        }
    }
    S->tops_done++;
}

void done() {
    if (!g_child) return;
    slot->execs++;
    slot->beat++;
    _exit(0);
}
void snapshot() {
    if (g_replay || g_child) return;
    if (depth) fail("harness: a choice before the snapshot");
    path.clear();
    while (true) {
        slot->npath = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_child = true;
            return;
        }
        int st = 0;
        if (pid < 0 || waitpid(pid, &st, 0) != pid) _exit(44);
        if (WIFSIGNALED(st)) raise(WTERMSIG(st)), _exit(45);
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        if (ftruncate(2, 0)) {
        }
        depth = slot->npath;
        path.clear();
        for (size_t i = 0; i < depth; i++) path.emplace_back(slot->arity[i], slot->path[i]);
        if (!next_path(*g_check, g_top)) {
            S->tops_done++;
            break;
        }
        if (S->stop) break;
        if (now() > g_limit) {
            S->truncated = 1;
            break;
        }
        depth = 0;
    }
    _exit(43);
}

static void crash(int sig) {
    // async-signal context: leave the rest to the parent
    signal(sig, SIG_DFL);
    raise(sig);
}

static void rmtree(const std::string &d) {
    // only ever called on the scratch directory this process made
    if (DIR *dir = opendir(d.c_str())) {
        while (auto *e = readdir(dir)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            auto p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmtree(p);
            else
                unlink(p.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}

static std::string path_str(int top, const std::vector<int> &p) {
    std::string s = std::to_string(top) + ":";
    for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]);
    return s;
}

int main_(int argc, char **argv, const Check &c) {
    std::string out, replay, known;
    int workers = 8;
    uint64_t only = ~0ull;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier")
            tier = next() == "thorough" ? Thorough : Quick;
        else if (a == "--out")
            out = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--workers")
            workers = atoi(next().c_str());
        else if (a == "--known")
            known = next();
        else if (a == "--top")
            only = strtoull(next().c_str(), nullptr, 10);
    }
    if (workers > MAXW) workers = MAXW;
    if (!known.empty()) {
        // lines "known: property=<id> signature=<sig> <text>"
        std::ifstream f(known);
        std::string l;
        while (std::getline(f, l)) {
            std::string pre = "known: property=" + c.id + " signature=";
            if (l.compare(0, pre.size(), pre) == 0) {
                auto rest = l.substr(pre.size());
                auto sp = rest.find(' ');
                g_known.push_back(rest.substr(0, sp));
                g_known_text.push_back(sp == std::string::npos ? "" : rest.substr(sp + 1));
            }
        }
    }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slot = &S->slot[0];
    S->first_violation = -1;
    char tmpl[] = "/tmp/hgdbmc.XXXXXX";
    std::string base = mkdtemp(tmpl);
    mcrt::choose = choose;
    mcrt::on_switch = [](const std::string &w) { trace("  . " + w); };
    if (&mcrt::hb_report) mcrt::hb_report = [](const std::string &w) { fail(w); };
    mcrt::on_deadlock = [](const std::string &w) { fail("deadlock or lost wake-up: " + w); };
    if (!replay.empty()) {
        g_replay = true;
        mkscratch(base, 0);
        auto colon = replay.find(':');
        size_t top = strtoull(replay.c_str(), nullptr, 10);
        size_t p = colon + 1;
        while (colon != std::string::npos && p < replay.size()) {
            path.emplace_back(1 << 30, atoi(replay.c_str() + p));
            auto q = replay.find(',', p);
            if (q == std::string::npos) break;
            p = q + 1;
        }
        pid_t pid = fork();
        if (pid == 0) {
            run_one(c, top);
            printf("replay: property held\n");
            fflush(stdout);
            _exit(0);
        }
        int st;
        double t0 = now();
        uint64_t beat = 0;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            usleep(20000);
            if (slot->beat != beat) beat = slot->beat, t0 = now();
            if (now() - t0 > c.hang_s) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                printf("VIOLATED: hang\n");
                break;
            }
        }
        rmtree(base);
        if (WIFSIGNALED(st)) printf("VIOLATED: killed by signal %d\n", WTERMSIG(st));
        return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
    }
    size_t ntops = c.tops() * c.shards;
    double t0 = now();
    double deadline = t0 + (tier == Thorough ? c.limit_thorough_s : c.limit_s);
    g_deadline = deadline;
    std::vector<pid_t> pids(workers, 0);
    std::vector<uint64_t> last_exec(workers, 0);
    std::vector<double> last_t(workers, t0);
    std::string violation, vpath;
    auto start_worker = [&](int w) {
        S->slot[w].status = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            slot = &S->slot[w];
            mkscratch(base, w);
            // quiet: the code under test logs to stdout/stderr
            auto log = g_scratch + "/log";
            int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(fd, 2);
            if (fd > 2) close(fd);
            (void)crash;
            while (!S->stop) {
                size_t t = S->next_top.fetch_add(1);
                if (t >= ntops) break;
                if (only != ~0ull && t != only) continue;
                if (now() > deadline) {
                    S->truncated = 1;
                    break;
                }
                run_top(c, t, deadline);
                // keep the log small: only what the last case wrote is of interest
                if (ftruncate(2, 0)) {
                }
                if (c.fork_each) _exit(43);
            }
            slot->status = 2;
            _exit(0);
        }
        pids[w] = pid;
        last_t[w] = now();
    };
    for (int w = 0; w < workers; w++) start_worker(w);
    int alive = workers;
    while (alive > 0) {
        int st;
        pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            for (int w = 0; w < workers; w++)
                if (pids[w] == p) {
                    pids[w] = 0;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 43 && !S->stop) {
                        start_worker(w);
                        continue;
                    }
                    alive--;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    auto &sl = S->slot[w];
                    if (violation.empty() && !S->stop) {
                        if (sl.status == 1)
                            violation = sl.msg;
                        else {
                            violation = WIFSIGNALED(st) ? "process killed by signal " +
                                                              std::to_string(WTERMSIG(st))
                                                        : "process exited with status " +
                                                              std::to_string(WEXITSTATUS(st));
                            if (sl.note[0]) violation += std::string("\ncase: ") + sl.note;
                            // tail of the worker's log
                            std::ifstream f(base + "/w" + std::to_string(w) + "/log");
                            std::string log((std::istreambuf_iterator<char>(f)), {});
                            if (log.size() > 6000) log = log.substr(0, 3000) + "\n...\n" + log.substr(log.size() - 3000);
                            violation += "\n" + log;
                        }
                        std::vector<int> pp(sl.path, sl.path + std::min<int>(sl.npath, 16384));
                        vpath = path_str(sl.top, pp);
                        S->stop = 1;
                    }
                }
        }
        for (int w = 0; w < workers; w++) {
            if (!pids[w]) continue;
            auto e = S->slot[w].beat.load();
            if (e != last_exec[w]) {
                last_exec[w] = e;
                last_t[w] = now();
            } else if (now() - last_t[w] > c.hang_s) {
                if (violation.empty() && !S->stop) {
                    auto &sl = S->slot[w];
                    violation = "hang: one execution did not end within " +
                                std::to_string((int)c.hang_s) + " s" +
                                (sl.note[0] ? std::string("\ncase: ") + sl.note : "");
                    std::vector<int> pp(sl.path, sl.path + std::min<int>(sl.npath, 16384));
                    vpath = path_str(sl.top, pp);
                }
                S->stop = 1;
                kill(pids[w], SIGKILL);
            }
            if (S->stop && now() - last_t[w] > 20) kill(pids[w], SIGKILL);
        }
        usleep(5000);
    }
    rmtree(base);
    uint64_t ex = 0, tr = 0, va = 0, ev = 0;
    for (int w = 0; w < workers; w++) {
        ex += S->slot[w].execs;
        tr += S->slot[w].transitions;
        va += S->slot[w].validated;
        ev += S->slot[w].evals;
    }
    mj::J r = mj::J::obj();
    r.set("property", c.id);
    r.set("executions", ex);
    r.set("top_cases", (uint64_t)(ntops / c.shards));
    r.set("top_cases_completed", S->tops_done.load());
    r.set("states", S->nstates.load());
    r.set("transitions", tr);
    r.set("traces_validated_against_impl", va);
    r.set("evaluations", ev);
    r.set("distinct_nontrivial", S->nnon.load());
    r.set("exhaustive", mj::J((bool)(!S->truncated && violation.empty() && only == ~0ull)));
    mj::J sm = mj::J::arr();
    for (int i = 0; i < 8 && i < S->nsamples; i++) sm.push(std::string(S->samples[i]));
    r.set("samples", sm);
    mj::J cn = mj::J::obj();
    for (auto &k : S->counters)
        if (k.name[0]) cn.set(k.name, k.v.load());
    r.set("counters", cn);
    mj::J kn = mj::J::arr();
    for (size_t i = 0; i < g_known.size() && i < 16; i++) {
        uint64_t n = 0;
        for (int w = 0; w < workers; w++) n += S->slot[w].known[i];
        if (n) kn.push(mj::J::obj({{"signature", g_known[i]}, {"text", g_known_text[i]}, {"count", n}}));
    }
    r.set("known", kn);
    r.set("wall_s", mj::J::raw(std::to_string(now() - t0)));
    if (!violation.empty()) {
        r.set("violation", violation);
        r.set("replay", vpath);
    }
    auto txt = r.dump();
    if (!out.empty()) {
        std::ofstream f(out);
        f << txt << "\n";
    } else
        printf("%s\n", txt.c_str());
    return violation.empty() ? 0 : 1;
}
}  // namespace mc
