// C13: every history of monitor requests up to the bound, made between edges or at pauses, with
// every pattern of value changes: after each step the monitor events of every client are exactly
// those of the monitors added and not removed.
// build: plain
#include "model.hh"
using namespace model;

static const char *KIND[] = {"clock_edge", "breakpoint", "changed"};
struct Mon {
    int copy;
    std::string sig;  // full name
    int hi = -1, lo = -1;
    int kind;
    uint64_t id;
    bool reported = false;
    int64_t last = 0;
};
struct Op {
    enum K { None, Add, Bad, Remove, RemoveUnknown, Set, DataBp } k = None;
    int var = 0, kind = 0, copy = 0;
    int which = 0;  // Remove: the n-th id handed out
    std::string show() const { return std::to_string((int)k) + "." + std::to_string(var) + "." + std::to_string(kind) + "." + std::to_string(copy) + "." + std::to_string(which); }
};

struct Run {
    World &w;
    const design::Kit &kit;
    int copies;
    bool hex;
    bool two_clients;
    std::vector<Mon> mons;
    std::vector<std::pair<int, uint64_t>> issued;  // ns, id
    const char *command = "continue";

    int64_t now(const Mon &m) const {
        auto v = w.vpi->get(m.sig);
        if (m.hi >= 0) return (int64_t)(v >> m.lo & ((1ull << (m.hi - m.lo + 1)) - 1));
        return (int64_t)(int32_t)(uint32_t)v;
    }
    std::string text(const Mon &m, int64_t v) const {
        if (!hex) return std::to_string(v);
        char b[40];
        snprintf(b, sizeof b, "0x%llX", (unsigned long long)v);
        (void)m;
        return b;
    }
    // what has to be reported at a pause / at the end of an edge
    void due(bool pause, std::multiset<std::string> &out) {
        for (auto &m : mons) {
            bool r = pause ? m.kind == 1 : m.kind == 0;
            auto v = now(m);
            if (!pause && m.kind == 2 && (!m.reported || m.last != v)) {
                r = true;
                m.reported = true;
                m.last = v;
            }
            if (r) out.insert(std::to_string(m.copy) + "/" + std::to_string(m.id) + "=" + text(m, v));
        }
    }
    static std::string list(const std::multiset<std::string> &s) {
        std::string r;
        for (auto &x : s) r += x + " ";
        return r;
    }
    void compare(const std::vector<Ev> &evs, const std::multiset<std::string> &want) {
        for (uint64_t c = 1; c <= (two_clients ? 2u : 1u); c++) {
            std::multiset<std::string> got;
            for (auto &e : evs) {
                if (e.conn != c || e.msg["type"].str() != "monitor") continue;
                auto &p = e.msg["payload"];
                got.insert(std::to_string(p["namespace_id"].u()) + "/" + std::to_string(p["track_id"].u()) + "=" + p["value"].str());
            }
            if (got != want) mc::fail("monitor events to client " + std::to_string(c) + ": {" + list(got) + "}, expected {" + list(want) + "}");
        }
        mc::validated();
        std::string h;
        for (auto &m : mons) h += m.sig + std::to_string(m.kind) + std::to_string(m.hi) + "," + std::to_string(m.last);
        mc::state(mc::hash(h + (w.paused() ? "p" : "r") + list(want)));
        if (!want.empty()) mc::nontrivial(mc::hash(h + list(want)));
    }
    // requests cause no events
    std::vector<Ev> request(const J &j) {
        mc::trace("request " + j.dump());
        auto evs = w.send(1, j);
        for (auto &e : evs)
            if (e.msg["type"].str() == "monitor" || design::is_hit(e.msg)) mc::fail("event because of a request: " + e.text);
        return evs;
    }
    void settle(const std::vector<Ev> &evs, bool resumed_edge) {
        (void)resumed_edge;
        std::multiset<std::string> want;
        due(w.paused(), want);
        compare(evs, want);
    }
    void edge(const Vals &v) {
        std::string t = "edge:";
        for (auto &p : v) t += " " + p.first + "=" + std::to_string(p.second);
        mc::trace(t);
        settle(w.edge(v), false);
    }
    // the copies of a statement may be reported one after the other
    void resume() {
        for (int i = 0; i < (command[0] == 'c' ? 4 : 40) && w.paused(); i++) {
            mc::trace(command);
            settle(w.send(1, world::r_cmd(command)), true);
        }
        if (w.paused()) mc::fail("does not resume");
    }
    void perform(const Op &o) {
        auto stmt = [&](const char *inst, uint32_t line) -> const Stmt & {
            for (auto &s : kit.stmts)
                if (s.inst == inst && s.line == line) return s;
            mc::fail("no such statement");
        };
        switch (o.k) {
            case Op::None:
                return;
            case Op::Add:
            case Op::Bad: {
                J p = J::obj({{"action_type", "add"}, {"monitor_type", KIND[o.kind]}});
                Mon m;
                m.copy = o.copy;
                m.kind = o.kind;
                auto top = kit.tops[(size_t)o.copy];
                if (copies > 1) p.set("namespace_id", o.copy);
                if (o.k == Op::Bad) {
                    p.set("var_name", o.var == 0 ? top + ".nosuch" : o.var == 1 ? "w" : o.var == 2 ? top : "x");
                    if (o.var == 1) p.set("breakpoint_id", stmt("dut", 1).id);
                    if (o.var == 3) p.set("instance_id", 999);
                } else if (o.var == 0) {
                    p.set("var_name", top + ".x");
                    m.sig = top + ".x";
                } else if (o.var == 1) {  // the same by its name in a scope
                    p.set("var_name", "x");
                    p.set("breakpoint_id", stmt("dut", 2).id);
                    m.sig = top + ".x";
                } else if (o.var == 2) {
                    p.set("var_name", "p");
                    p.set("instance_id", stmt("dut.c1", 10).inst_id);
                    m.sig = top + ".c1.p";
                } else {
                    p.set("var_name", top + ".x[3:1]");
                    m.sig = top + ".x";
                    m.hi = 3;
                    m.lo = 1;
                }
                auto evs = request(world::request("monitor", p));
                auto st = status(evs);
                if (o.k == Op::Bad) {
                    if (st != "error") mc::fail("monitor request for what cannot be monitored answered with '" + st + "'");
                    return;
                }
                if (st != "success") mc::fail("monitor request answered with '" + st + "'");
                auto &r = evs.back().msg["payload"];
                if (r["namespace_id"].u() != (uint64_t)o.copy) mc::fail("monitor added in another copy");
                m.id = r["track_id"].u();
                for (auto &x : mons) {
                    if (x.copy != m.copy) continue;
                    bool same = x.sig == m.sig && x.kind == m.kind && x.hi == m.hi && x.lo == m.lo;
                    if (same && x.id != m.id) mc::fail("adding the same variable and kind again yields another id");
                    if (!same && x.id == m.id) mc::fail("the id of another monitor is handed out");
                    if (same) return;
                }
                issued.push_back({o.copy, m.id});
                mons.push_back(m);
                return;
            }
            case Op::Remove:
            case Op::RemoveUnknown: {
                int ns = 0;
                uint64_t id = 77;
                if (o.k == Op::Remove) {
                    if ((size_t)o.which >= issued.size()) return;
                    ns = issued[(size_t)o.which].first;
                    id = issued[(size_t)o.which].second;
                }
                J p = J::obj({{"action_type", "remove"}, {"track_id", id}});
                if (copies > 1) p.set("namespace_id", ns);
                auto st = status(request(world::request("monitor", p)));
                bool there = false;
                for (auto it = mons.begin(); it != mons.end();)
                    if (it->copy == ns && it->id == id) {
                        it = mons.erase(it);
                        there = true;
                    } else
                        it++;
                if (there ? st != "success" : st.empty()) mc::fail("remove answered with '" + st + "'");
                return;
            }
            case Op::Set: {
                auto n = kit.tops[(size_t)o.copy] + ".x";
                auto v = w.vpi->get(n) ^ 6;
                if (status(request(world::request("set-value", J::obj({{"var_name", n}, {"value", v}})))) != "success")
                    mc::fail("set-value failed");
                return;
            }
            case Op::DataBp: {
                // its watch is none of the monitors
                J p = J::obj({{"action", o.which ? "remove" : "add"}, {"var_name", "x"}, {"breakpoint-id", stmt("dut", 1).id}});
                if (copies > 1) p.set("namespace_id", 0);
                if (!o.which) p.set("condition", "x == 77");
                request(world::request("data-breakpoint", p));
                return;
            }
        }
    }
};
static std::vector<Op> ops(int copies) {
    std::vector<Op> r;
    r.push_back({});
    for (int k = 0; k < 3; k++)
        for (int v = 0; v < 3; v++) r.push_back({Op::Add, v, k, 0, 0});
    r.push_back({Op::Add, 3, 0, 0, 0});
    r.push_back({Op::Add, 3, 2, 0, 0});
    if (copies > 1) {
        r.push_back({Op::Add, 0, 2, 1, 0});
        r.push_back({Op::Add, 1, 0, 1, 0});
        r.push_back({Op::Add, 2, 1, 1, 0});
    }
    for (int i = 0; i < 3; i++) r.push_back({Op::Remove, 0, 0, 0, i});
    r.push_back({Op::RemoveUnknown});
    r.push_back({Op::Set});
    for (int i = 0; i < 4; i++) r.push_back({Op::Bad, i, i % 3, 0, 0});
    r.push_back({Op::DataBp});
    r.push_back({Op::DataBp, 0, 0, 0, 1});
    return r;
}
static const int PAT[] = {0xf, 0x5, 0x0, 0xa, 0x9, 0x6};

static size_t tops() { return 2 * 5 * 6 * 26; }
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    // 0: no pauses, requests between edges; 1: a pause at every edge, requests there; 2: a pause at
    // every edge, requests between edges; 3: stepping, requests at the first pause of every edge or
    // between edges; 4: like 0, with monitors from before
    int when = (int)(top >> 1) % 5;
    int pat = (int)((top >> 1) / 5 % 6);
    size_t first = (top >> 1) / 30;
    auto all = ops(copies);
    if (first >= all.size()) return;
    if (!mc::thorough() && (pat >= 2 || (pat == 0 && when == 2) || (pat == 1 && when == 4))) return;
    auto kit = design::kit1(copies);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    w.open(2);
    Run r{w, kit, copies, pat == 1, true, {}, {}};
    if (r.hex) must(w, world::request("option-change", J::obj({{"use_hex_str", true}})));
    if (when == 3) r.command = "step_over";
    if (when == 1 || when == 2) must(w, world::r_bp("add", "dut.py", 4, 0, "a"));
    int slots = mc::thorough() ? 4 : when == 3 ? 2 : 3;
    Vals v;
    auto drive = [&](int e) {
        for (size_t t = 0; t < kit.tops.size(); t++) {
            auto &n = kit.tops[t];
            v[n + ".a"] = 1;
            v[n + ".b"] = 0;
            if (PAT[pat] >> e & 1) v[n + ".x"] = 0x80u + 0x13u * (unsigned)(e + 1) + (unsigned)t;
            v[n + ".c1.p"] = PAT[pat] >> ((unsigned)e + t + 1) % 4 & 1;
        }
    };
    if (when == 4) {
        r.perform({Op::Add, 0, 2, 0, 0});
        r.perform({Op::Add, 2, 0, 0, 0});
        r.perform({Op::DataBp});
    }
    bool started = false;
    for (int s = 0; s < slots; s++) {
        auto o = s == 0 ? first : (size_t)mc::choose((int)all.size());
        // what has no effect so far is left out
        if (when == 1 || (when == 3 && pat % 2 == 0)) {
            if (!started) w.send(1, world::r_cmd(r.command));
            started = true;
            drive(s);
            r.edge(v);
            if (!w.paused()) mc::fail("no pause at the breakpoint");
            r.perform(all[o]);
            r.resume();
        } else {
            r.perform(all[o]);
            if (!started) w.send(1, world::r_cmd(r.command));
            started = true;
            drive(s);
            r.edge(v);
            if (w.paused() != (when == 2 || when == 3)) mc::fail("pauses differ from the breakpoints inserted");
            if (w.paused()) r.resume();
        }
    }
    for (int e = 0; e < 2; e++) {
        drive(slots + e);
        r.edge(e ? Vals() : v);
        if (w.paused()) r.resume();
    }
    mc::evaluation();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C13";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
