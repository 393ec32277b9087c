// C09: every interleaving (up to a preemption bound) of a request with the evaluation of clock
// edges: no data race, no use of freed memory, no dead lock, and everything that can be observed is
// as if the request had been served at one moment at which nothing is evaluated, between its
// arrival and its reply. What happens then is found by running the debugger sequentially once for
// every such moment.
// build: mc
#include "model.hh"
using namespace model;

struct Act {
    J req;           // null: a connection is opened or closed
    int open = 0;    // 1 open, -1 close
    uint64_t conn = 2;
};
struct Scn {
    const char *name;
    std::vector<J> setup;
    std::vector<Act> acts;
    int bound = 1, bound_thorough = 2;
    int edges = 2;
    bool many = false;  // enough instances for several evaluation threads
};
static J rq(const char *t, const J &p) { return world::request(t, p); }
static J bp(const char *a, uint32_t l, const char *c = "") { return world::r_bp(a, "dut.py", l, 0, c); }
static J opt(const char *o, bool v) { return rq("option-change", J::obj({{o, v}})); }
static J mon(const char *kind, const char *var) {
    J p = J::obj({{"action_type", "add"}, {"monitor_type", kind}, {"var_name", var}, {"namespace_id", 0}});
    if (!strchr(var, '.')) p.set("instance_id", 0);
    return rq("monitor", p);
}
static J unmon(int id) { return rq("monitor", J::obj({{"action_type", "remove"}, {"track_id", id}, {"namespace_id", 0}})); }
static J data(const char *a, const char *var, uint32_t bpid) {
    return rq("data-breakpoint", J::obj({{"action", a}, {"var_name", var}, {"breakpoint-id", bpid}, {"namespace_id", 0}}));
}
static J evaluation(const char *e) { return rq("evaluation", J::obj({{"expression", e}, {"instance_id", 0}, {"namespace_id", 0}})); }
static J setv(const char *n, int v) {
    return rq("set-value", J::obj({{"var_name", n}, {"value", v}, {"namespace_id", 0}}));
}

static std::vector<Scn> scenarios(const design::Kit &kit) {
    uint32_t id[5] = {}, inst = 0;
    for (auto &s : kit.stmts)
        if (s.inst == "dut") id[s.line] = s.id, inst = s.inst_id;
    (void)inst;
    auto two = std::vector<J>{bp("add", 2), bp("add", 4)};
    auto with = [&](std::vector<J> more) {
        auto v = two;
        v.insert(v.end(), more.begin(), more.end());
        return v;
    };
    std::vector<Scn> r;
    auto add = [&](const char *n, std::vector<J> setup, std::vector<Act> acts) { r.push_back({n, setup, acts}); };
    add("add earlier", two, {{bp("add", 1)}});
    add("add later", two, {{bp("add", 3)}});
    add("condition", two, {{bp("add", 2, "b")}});
    add("remove first", two, {{bp("remove", 2)}});
    add("remove second", two, {{bp("remove", 4)}});
    add("add by id", two, {{world::r_bpid("add", id[3], "a")}});
    add("remove by id", two, {{world::r_bpid("remove", id[2])}});
    add("children", two, {{world::r_bp("add", "child.py", 11)}});
    add("data add", two, {{data("add", "x", id[1])}});
    add("data remove", with({data("add", "x", id[1])}), {{data("remove", "x", id[1])}});
    add("data clear", with({data("add", "x", id[1])}), {{data("clear", "", 0)}});
    add("monitor clock", two, {{mon("clock_edge", "a")}});
    add("monitor bp", two, {{mon("breakpoint", "tb.d0.b")}});
    add("monitor changed", two, {{mon("changed", "tb.d0.b")}});
    add("monitor remove", with({mon("clock_edge", "a"), mon("changed", "tb.d0.b")}), {{unmon(0)}});
    add("monitor remove 2", with({mon("clock_edge", "a"), mon("changed", "tb.d0.b")}), {{unmon(1)}});
    add("set value", with({mon("clock_edge", "tb.d0.b")}), {{setv("tb.d0.b", 1)}});
    add("set value cached", with({opt("use_signal_cache", true)}), {{setv("tb.d0.b", 1)}});
    add("evaluate", two, {{evaluation("b + 1")}});
    add("evaluate cached", with({opt("use_signal_cache", true)}), {{evaluation("b + 1")}});
    add("evaluate path", two, {{evaluation("tb.d0.x")}});
    for (auto *i : {"breakpoints", "status", "options", "design", "filename"}) {
        static const std::map<std::string, const char *> nm = {{"breakpoints", "info breakpoints"}, {"status", "info status"}, {"options", "info options"}, {"design", "info design"}, {"filename", "info filename"}};
        add(nm.at(i), two, {{world::r_info(i)}});
    }
    add("bp location", two, {{rq("bp-location", J::obj({{"filename", "dut.py"}}))}});
    add("path mapping", two, {{rq("path-mapping", J::obj({{"path-mapping", J::obj({{"/x", "/y"}})}}))}});
    add("single thread", two, {{opt("single_thread_mode", true)}});
    add("cache", two, {{opt("use_signal_cache", true)}});
    add("hex", with({mon("clock_edge", "a")}), {{opt("use_hex_str", true)}});
    add("perf", two, {{opt("perf_count", true)}});
    add("log", two, {{opt("log_enabled", true)}});
    add("posedge", two, {{opt("pause_at_posedge", true)}});
    add("posedge off", with({opt("pause_at_posedge", true)}), {{opt("pause_at_posedge", false)}});
    add("reconnect", two, {{world::r_connect(kit.path)}});
    add("bad connect", two, {{world::r_connect(kit.path + ".no")}});
    add("malformed", two, {{rq("breakpoint", J::obj({{"action", 3}}))}});
    add("unknown", two, {{rq("nonsense", J::obj())}});
    add("bad names", two, {{setv("nosuch", 1)}});
    add("open", with({mon("clock_edge", "a")}), {{J(), 1, 3}});
    add("close", with({mon("clock_edge", "a")}), {{J(), -1, 2}});
    add("set then evaluate", two, {{setv("tb.d0.b", 1)}, {evaluation("b")}});
    add("remove and add", two, {{bp("remove", 2)}, {bp("add", 2, "b")}});
    add("remove both", two, {{bp("remove", 2)}, {bp("remove", 4)}});
    add("data add, remove", two, {{data("add", "x", id[1])}, {data("remove", "x", id[1])}});
    add("open, request", two, {{J(), 1, 3}, {bp("remove", 4), 0, 3}});
    add("request, close", two, {{bp("add", 1)}, {J(), -1, 2}});
    return r;
}

// the debugger with everything that can be observed
struct Obs {
    World w;
    const design::Kit &kit;
    const Scn &sc;
    std::vector<Vals> script;
    // events in order; what each consists of
    std::vector<std::string> log;
    std::vector<std::string> replies;  // to the actions
    std::vector<int> d, r;             // events before the action's arrival / its end
    int acting = -1;
    bool resuming = false;
    std::string final_;
    bool recording = false;

    Obs(const design::Kit &k, const Scn &s, int edges) : kit(k), sc(s) {
        design::bench1(w, k);
        for (int e = 0; e < edges; e++) {
            Vals v;
            for (auto &t : k.tops) {
                v[t + ".a"] = 1;
                v[t + ".b"] = e & 1;
                v[t + ".x"] = 7 + e / 2;
                v[t + ".c0.p"] = v[t + ".c1.p"] = 0;
            }
            script.push_back(v);
        }
        bring_up(w, k);
        w.open(2);
        for (auto &q : sc.setup) must(w, q);
        Ref ref(w, k);
        ref.go();
        replies.assign(sc.acts.size(), "");
        d.assign(sc.acts.size(), -1);
        r.assign(sc.acts.size(), -1);
        w.on_sim = [this](char c) {
            if (recording) log.push_back(std::string(1, c));
        };
        w.on_ev = [this](const Ev &e) { event(e); };
        recording = true;
    }
    ~Obs() {
        w.on_sim = nullptr;
        w.on_ev = nullptr;
    }
    void event(const Ev &e) {
        if (!recording) return;
        bool hit = design::is_hit(e.msg), m = e.msg["type"].str() == "monitor";
        if (hit || m) {
            if (e.fiber != w.sim_fiber) mc::fail("an event that the simulation thread did not send: " + e.text);
            // to whom it goes belongs to the event; the messages of one event follow each other
            log.push_back((hit ? "H" : "M") + std::to_string(e.conn) + " " + e.text);
            return;
        }
        if (acting >= 0 && sc.acts[acting].conn == e.conn)
            replies[acting] += e.text + "\n";
        else if (resuming && e.conn == 1) {
            if (e.msg["status"].str() != "success") mc::fail("continue is answered with " + e.text);
        } else
            mc::fail("a message to nobody's request: " + e.text);
    }
    void act(int i) {
        auto &a = sc.acts[i];
        acting = i;
        d[i] = (int)log.size();
        mc::trace("    begin action " + std::to_string(i));
        auto *s = w.server();
        if (a.open > 0)
            s->open(a.conn);
        else if (a.open < 0)
            s->close(a.conn);
        else
            s->deliver(a.conn, a.req.dump());
        r[i] = (int)log.size();
        mc::trace("    done action " + std::to_string(i));
        acting = -1;
    }
    void finish() {
        recording = false;
        w.on_ev = nullptr;
        for (auto *i : {"breakpoints", "options", "status"}) {
            auto evs = w.send(1, world::r_info(i));
            for (auto &e : evs) final_ += e.text + "\n";
        }
        for (auto &p : w.vpi->values()) final_ += p.first + "=" + std::to_string(p.second) + " ";
        // what is in effect now shows at one more edge
        auto n = w.evs.size();
        w.edge(script.back());
        for (int i = 0; i < 20 && w.paused(); i++) w.send(1, world::r_cmd("continue"));
        if (!w.idle()) mc::fail("the simulation stays paused in the end");
        for (auto i = n; i < w.evs.size(); i++) final_ += w.evs[i].text + "\n";
    }
    std::string outcome() const {
        std::string s;
        for (auto &l : log) s += l + "\n";
        s += "replies:\n";
        for (auto &l : replies) s += l + "--\n";
        return s + "finally:\n" + final_;
    }
};

// everything at one moment each: action i at the first moment of rest with at least at[i] events
static void sequential(Obs &o, const std::vector<int> &at, std::vector<int> *moments) {
    auto &w = o.w;
    size_t next = 0, edge = 0;
    while (true) {
        if (moments) moments->push_back((int)o.log.size());
        while (next < at.size() && (int)o.log.size() >= at[next]) {
            auto i = (int)next++;
            w.server()->queue([&o, i] { o.act(i); });
            w.settle();
        }
        if (w.paused()) {
            auto n = o.log.size();
            w.server()->queue([&o] {
                o.resuming = true;
                o.w.server()->deliver(1, world::r_cmd("continue").dump());
                o.resuming = false;
            });
            w.settle();
            if (o.log.size() == n) mc::fail("does not resume");
        } else if (edge < o.script.size())
            w.edge(o.script[edge++]);
        else
            break;
    }
    while (next < at.size()) {
        auto i = (int)next++;
        w.server()->queue([&o, i] { o.act(i); });
        w.settle();
    }
    o.finish();
}

static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    auto kit = design::kit1(copies);
    auto all = scenarios(kit);
    auto &sc = all[top / 2];
    int n_acts = (int)sc.acts.size();
    int edges = mc::thorough() || n_acts == 1 ? sc.edges : 1;
    mc::note(sc.name);
    // (events before the action) -> outcome, for every sequence of moments
    struct Seq {
        std::vector<int> at;
        std::string text;
    };
    std::vector<Seq> seqs;
    static const int INF = 1 << 20;
    std::function<void(std::vector<int>)> explore_seq = [&](std::vector<int> at) {
        // run with the actions so far; the others in the end
        std::vector<int> full = at;
        while ((int)full.size() < n_acts) full.push_back(INF);
        std::vector<int> moments;
        {
            Obs o(kit, sc, edges);
            sequential(o, full, &moments);
            // as done at the end
            auto a = full;
            for (auto &x : a)
                if (x == INF) x = moments.back();
            bool is_new = true;
            for (auto &s : seqs) is_new = is_new && s.at != a;
            if (is_new) seqs.push_back({a, o.outcome()});
            mc::state(mc::hash(std::string(sc.name) + seqs.back().text));
        }
        if ((int)at.size() == n_acts) return;
        for (auto m : moments) {
            if (!at.empty() && m < at.back()) continue;
            auto b = at;
            b.push_back(m);
            explore_seq(b);
        }
    };
    explore_seq({});
    Obs o(kit, sc, edges);
    auto &w = o.w;
    mc::snapshot();
    w.script = o.script;
    for (int i = 0; i < n_acts; i++) w.server()->queue([&o, i] { o.act(i); });
    bool stop = false, pending = false;
    mcrt::spawn(
        [&] {
            size_t last = ~0ull;
            while (true) {
                mcrt::block_until([&] { return stop || (!pending && mcrt::blocked_on_condition(w.sim_fiber)); }, "client");
                if (stop) return;
                if (last == o.log.size()) mc::fail("the simulation stays paused after continue");
                last = o.log.size();
                pending = true;
                w.server()->queue([&] {
                    o.resuming = true;
                    mc::trace("    continue");
                    w.server()->deliver(1, world::r_cmd("continue").dump());
                    o.resuming = false;
                    pending = false;
                });
            }
        },
        "client");
    mcrt::set_mode(mcrt::Mode::Explore, mc::thorough() ? sc.bound_thorough : sc.bound);
    mcrt::join_all();
    mcrt::set_mode(mcrt::Mode::Seq);
    if (!w.idle() || !w.script.empty()) mc::fail("the simulation does not go on: " + mcrt::describe());
    stop = true;
    w.settle();
    for (int i = 0; i < n_acts; i++)
        if (o.r[i] < 0) mc::fail("action " + std::to_string(i) + " is never served");
    auto d = o.d, r = o.r;
    o.finish();
    auto got = o.outcome();
    mc::evaluation();
    mc::validated();
    mc::transition(o.log.size());
    mc::nontrivial(mc::hash(std::string(sc.name) + got));
    mc::counter(sc.name, 1);
    if (mc::replaying())
        for (auto &l : o.replies) printf("reply: %s", l.c_str());
    // the moments of rest that the arrival and the end lie between
    bool ok = false;
    std::string why;
    for (auto &s : seqs) {
        bool in = true;
        for (int i = 0; i < n_acts; i++) {
            // events in between that lead to no rest (the begin of an edge, a monitor event, ...)
            int lo = d[i], hi = r[i];
            auto rest = [&](int k) {
                for (auto &x : seqs)
                    if (x.at[i] == k) return true;
                return false;
            };
            while (lo > 0 && !rest(lo)) lo--;
            while (hi < INF && hi <= (int)o.log.size() && !rest(hi)) hi++;
            in = in && s.at[i] >= lo && s.at[i] <= hi;
        }
        if (in && s.text == got) ok = true;
        if (in && s.text != got) {
            size_t k = 0;
            while (k < got.size() && k < s.text.size() && got[k] == s.text[k]) k++;
            why += "\n served after " + std::to_string(s.at[0]) + " events: ..." + s.text.substr(k > 100 ? k - 100 : 0, 300) + "\n  but got ..." + got.substr(k > 100 ? k - 100 : 0, 300);
        }
    }
    if (!ok) {
        std::string l;
        for (auto &x : o.log) l += x.substr(0, 60) + "\n";
        mc::fail(std::string(sc.name) + ": the result is that of no moment at which the request could have been served (arrival after " + std::to_string(d[0]) + " events, reply after " + std::to_string(r[0]) + ")" + why + "\nevents:\n" + l);
    }
    mc::done();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C09";
    c.tops = [] {
        design::Kit k = design::Kit();
        return scenarios(k).size() * 2;
    };
    c.body = body;
    c.shards = 2;
    return mc::main_(argc, argv, c);
}
