// C10: breakpoints of many instances are evaluated by two threads: every interleaving of those (up
// to a preemption bound) reports what evaluation by one thread reports, and what the reference
// says, without data races; with batching off the same instances are reported one by one.
// build: mc
#include "model.hh"
#include "triggers.hh"
using namespace model;

// dut with n children; child { 10 if (p): q; 11: r }
static design::Kit kitn(int copies, int n) {
    design::Kit k;
    k.copies = copies;
    J insts = J::arr();
    for (int i = 0; i < n; i++) insts.push(J::obj({{"name", "c" + std::to_string(i)}, {"module", "child"}}));
    J top_scope = J::arr({J::obj({{"type", "block"}, {"filename", "dut.py"}, {"scope", J::arr({design::assign("x", "x", 1)})}})});
    J dut = J::obj({{"type", "module"}, {"name", "dut"}, {"scope", top_scope}, {"variables", J::arr()}, {"instances", insts}});
    J child = J::obj({{"type", "module"}, {"name", "child"},
                      {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "child.py"},
                                                {"scope", J::arr({design::assign("q", "q", 10, 0, "p"), design::assign("r", "r", 11)})}})})},
                      {"variables", J::arr({design::var("p", "p")})},
                      {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}, {"generator", "check"}});
    auto add = [&](const std::string &inst, const char *f, uint32_t line, std::vector<design::Lit> c, const char *t) {
        design::Stmt s;
        s.inst = inst;
        s.file = f;
        s.line = line;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut", "dut.py", 1, {}, "x");
    for (int i = 0; i < n; i++) {
        add("dut.c" + std::to_string(i), "child.py", 10, {{"p", true}}, "q");
        add("dut.c" + std::to_string(i), "child.py", 11, {}, "r");
    }
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = design::write_table(k.table, "table" + std::to_string(n) + ".json");
    design::number(k);
    return k;
}
static void bench(World &w, const design::Kit &k, int n) {
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    for (auto &t : k.tops) {
        v.add_module("dut", t);
        v.add_signal(t + ".clk", 1);
        v.add_signal(t + ".x", 8);
        for (int i = 0; i < n; i++) {
            auto c = t + ".c" + std::to_string(i);
            v.add_module("child", c);
            for (auto *s : {"p", "q", "r"}) v.add_signal(c + "." + s, 8);
        }
    }
    w.cfg.clk = k.tops[0] + ".clk";
}

struct Scn {
    const char *name;
    int copies, n;
    const char *cond;      // user condition
    std::vector<std::string> opts;
    int pattern;           // which instances hit
    int bound;
    bool data = false;
    bool verilator = false;
    bool trigger = false;
};
static const char *PAT[] = {"none", "all", "first", "last", "either side of the middle", "alternating", "first half", "every third"};
static std::vector<Scn> scenarios() {
    std::vector<Scn> r;
    for (int p = 0; p < 8; p++) {
        // preemptions are explored for these patterns; the orders of the threads for all
        int q = p == 4 || p == 5, q5 = p == 5, t = mc::thorough();
        auto add = [&](const char *n, int copies, int num, const char *cond, std::vector<std::string> opts, int bound, bool data = false, bool veri = false, bool trig = false) {
            r.push_back({n, copies, num, cond, opts, p, t ? 1 : bound, data, veri, trig});
        };
        add("plain", 1, 33, "", {}, q);
        add("copies", 2, 17, "", {}, q5);
        add("condition", 1, 33, "q > 3 && r != 2", {}, q5);
        add("cache", 1, 33, "", {"use_signal_cache"}, q5);
        add("cache condition", 1, 33, "q > 3 && q != 9", {"use_signal_cache"}, 0);
        add("perf", 1, 33, "", {"perf_count"}, q5);
        add("log", 1, 33, "", {"log_enabled"}, q5);
        add("time", 1, 33, "$time > 0 && $instance >= 0", {}, q5);
        add("data", 1, 33, "", {}, q5, true);
        add("verilator", 1, 33, "q > 3 && r != 2", {}, q5, false, true);
        add("trigger", 1, 33, "", {}, q5, false, false, true);
        add("one by one", 1, 33, "", {"single_thread_mode"}, 1);
        add("many", 1, 40, "", {}, 0);
        add("single thread", 1, 32, "", {}, 1);
    }
    return r;
}
static bool hits(int pattern, int i, int n) {
    switch (pattern) {
        case 0: return false;
        case 1: return true;
        case 2: return i == 0;
        case 3: return i == n - 1;
        case 4: return i == n / 2 || i == n / 2 - 1;
        case 5: return i & 1;
        case 6: return i < n / 2;
        default: return i % 3 == 0;
    }
}
struct Run {
    World w;
    std::vector<std::string> log;
    std::vector<Vals> script;
    static world::Cfg cfg(const Scn &sc, bool sequential) {
        world::Cfg c;
        if (sc.verilator) c.product = "Verilator";
        // these are never evaluated by several threads
        if (sequential) c.product = "xmsim";
        return c;
    }
    Run(const design::Kit &k, const Scn &sc, bool sequential) : w(cfg(sc, sequential)) {
        bench(w, k, sc.n);
        bring_up(w, k);
        if (sc.trigger) {
            std::map<uint32_t, std::string> t;
            for (auto &s : k.stmts)
                if (s.line == 10) t[s.id] = "q r";
            w.dbg->initialize_db(std::make_unique<Triggers>(k.path, t));
        }
        for (auto &o : sc.opts) must(w, world::request("option-change", J::obj({{o, true}})));
        must(w, world::r_bp("add", "child.py", 10, 0, sc.cond));
        if (sc.data) {
            // watched variables besides
            for (auto &s : k.stmts)
                if (s.line == 1 || (s.line == 11 && s.inst == "dut.c" + std::to_string(sc.n - 1)))
                    must(w, world::request("data-breakpoint", J::obj({{"action", "add"}, {"var_name", s.target}, {"breakpoint-id", s.id}, {"namespace_id", 0}})));
        }
        for (int e = 0; e < (mc::thorough() ? 2 : 1); e++) {
            Vals v;
            for (auto &t : k.tops) {
                v[t + ".x"] = 1;
                for (int i = 0; i < sc.n; i++) {
                    auto c = t + ".c" + std::to_string(i);
                    bool h = hits(sc.pattern, i, sc.n) != (e == 1 && sc.pattern > 1);
                    v[c + ".p"] = h || *sc.cond ? 1 + i % 5 : 0;
                    v[c + ".q"] = !*sc.cond || h ? 4 + i : 2 + i % 2;
                    v[c + ".r"] = i / 7;
                }
            }
            script.push_back(v);
        }
        Ref ref(w, k);
        ref.go();
        w.on_ev = [this](const Ev &e) {
            if (e.msg["type"].str() == "breakpoint" || e.msg["type"].str() == "monitor") log.push_back(e.text);
        };
        w.on_sim = [this](char c) { log.push_back(std::string(1, c)); };
    }
    ~Run() {
        w.on_ev = nullptr;
        w.on_sim = nullptr;
    }
    std::string all() const {
        std::string s;
        for (auto &l : log) s += l + "\n";
        return s;
    }
};

static void body(size_t top) {
    auto all = scenarios();
    auto &sc = all[top];
    auto kit = kitn(sc.copies, sc.n);
    mc::note(std::string(sc.name) + ", " + PAT[sc.pattern]);
    std::string want;
    {
        Run s(kit, sc, true);
        for (auto &v : s.script) {
            s.w.edge(v);
            for (int i = 0; i < 200 && s.w.paused(); i++) s.w.send(1, world::r_cmd("continue"));
            if (!s.w.idle()) mc::fail("does not resume");
        }
        want = s.all();
    }
    Run r(kit, sc, false);
    auto &w = r.w;
    mc::snapshot();
    w.script = r.script;
    bool stop = false, pending = false;
    mcrt::spawn(
        [&] {
            while (true) {
                mcrt::block_until([&] { return stop || (!pending && mcrt::blocked_on_condition(w.sim_fiber)); }, "client");
                if (stop) return;
                pending = true;
                w.server()->queue([&] {
                    w.server()->deliver(1, world::r_cmd("continue").dump());
                    pending = false;
                });
            }
        },
        "client");
    mcrt::set_mode(mcrt::Mode::Explore, sc.bound);
    mcrt::join_all();
    mcrt::set_mode(mcrt::Mode::Seq);
    if (!w.idle() || !w.script.empty()) mc::fail("the simulation does not go on: " + mcrt::describe());
    stop = true;
    auto got = r.all();
    mc::evaluation();
    mc::validated();
    mc::transition(r.log.size());
    mc::counter(sc.name, 1);
    mc::state(mc::hash(std::string(sc.name) + got));
    mc::nontrivial(mc::hash(std::string(sc.name) + got));
    if (got != want) {
        size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
        mc::fail(std::string(sc.name) + ", " + PAT[sc.pattern] + ": two threads report something else than one: ..." + got.substr(k > 200 ? k - 200 : 0, 500) + "\n expected ..." + want.substr(k > 200 ? k - 200 : 0, 500));
    }
    // the reference: which instances, all of one location at once unless one by one
    {
        Ref ref(w, kit);
        for (auto *s : ref.at("child.py", 10)) ref.insert(*s, uc_true());
        size_t e = ~0ull;
        std::vector<std::set<std::pair<uint32_t, int>>> rep(r.script.size());
        std::vector<int> pauses(r.script.size());
        for (auto &l : r.log) {
            if (l == "B") e++;
            if (l[0] != '{') continue;
            J j;
            mj::parse(l, j);
            if (!design::is_hit(j)) continue;
            auto h = design::parse_hit(j);
            if (h.line != 10) continue;
            pauses[e]++;
            for (auto &s : h.scopes)
                if (!rep[e].insert({s.bp_id, ref.copy_of(s.ns_id)}).second) mc::fail("reported twice: " + show(h));
        }
        for (size_t i = 0; i < r.script.size(); i++) {
            std::set<std::pair<uint32_t, int>> exp;
            for (auto &b : ref.bps) {
                auto c = kit.full(kit.by_id(b.id)->inst, b.copy);
                auto &v = r.script[i];
                bool h = v.at(c + ".p") != 0;
                std::string cond = sc.cond;
                auto q = v.at(c + ".q"), rr = v.at(c + ".r");
                if (cond == "q > 3 && r != 2") h = h && q > 3 && rr != 2;
                if (cond == "q > 3 && q != 9") h = h && q > 3 && q != 9;
                // the listed signals have the same values at all edges
                if (sc.trigger && i) h = false;
                if (h) exp.insert({b.id, b.copy});
            }
            if (exp != rep[i]) mc::fail(std::string(sc.name) + ", " + PAT[sc.pattern] + ": edge " + std::to_string(i) + " reports " + std::to_string(rep[i].size()) + " instances, expected " + std::to_string(exp.size()));
            int n = exp.empty() ? 0 : std::string(sc.name) == "one by one"? (int)exp.size() : 1;
            if (pauses[i] != n) mc::fail(std::string(sc.name) + ": " + std::to_string(pauses[i]) + " pauses, expected " + std::to_string(n));
        }
    }
    mc::done();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C10";
    c.tops = [] { return scenarios().size(); };
    c.body = body;
    c.shards = 4;
    return mc::main_(argc, argv, c);
}
