// C25: every sequence of connections, disconnections, clock edges, commands and requests of up to
// three clients at a time up to a depth, and who receives what.
// build: plain
#include "model.hh"
using namespace model;

static void body(size_t top) {
    const int depth = mc::thorough() ? 7 : 6;
    static const char *PRODUCT[] = {"RTLMock", "Chronologic Simulation VCS Release"};
    world::Cfg cfg;
    cfg.product = PRODUCT[top % 2];
    bool vcs = top % 2;
    top /= 2;
    bool bp = top % 2;  // with a breakpoint that always hits
    top /= 2;
    World w(cfg);
    auto k = design::kit1(1);
    design::bench1(w, k);
    w.create();
    w.start();
    if (top == 0) {
        // the table comes from the first client
        w.open(1);
    } else {
        // or from a client that has already left
        w.open(90);
        must(w, world::r_connect(k.path), "success", 90);
        if (vcs) must(w, world::request("option-change", J::obj({{"detach_after_disconnect", false}})), "success", 90);
        w.close(90);
        w.open(1);
        if (!w.paused()) mc::fail("the simulation starts because a client left");
    }
    if (top == 0) must(w, world::r_connect(k.path));
    bool detach = vcs && top == 0;
    must(w, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "clock_edge"}, {"var_name", "dut.x"}})));
    must(w, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "changed"}, {"var_name", "dut.y"}})));
    if (bp) must(w, world::r_bp("add", "dut.py", 1));
    mc::snapshot();

    std::set<uint64_t> on = {1};
    uint64_t fresh = 2;
    bool gone = false;  // detached
    uint64_t y = 0, seen_y = 0;
    bool have_y = false;
    // what a step sent: hits, values and replies by client
    auto check = [&](const std::vector<Ev> &evs, int hits, int edges_done, uint64_t asker, const char *token) {
        std::map<uint64_t, std::vector<int>> n;
        std::map<std::string, std::set<uint64_t>> text;
        std::set<std::string> changed;
        for (auto c : on) n[c] = {0, 0, 0, 0};
        for (auto &e : evs) {
            if (!on.count(e.conn)) mc::fail("a message to client " + std::to_string(e.conn) + ", which is not connected: " + e.text);
            auto t = e.msg["type"].str();
            int i = t == "breakpoint" ? 0 : t == "monitor" ? 1 : 2;
            n[e.conn][i]++;
            if (i == 2) {
                if (e.conn != asker) mc::fail("a reply to client " + std::to_string(e.conn) + " instead of " + std::to_string(asker) + ": " + e.text);
                if (e.msg["token"].str() != token) mc::fail("a reply with another token: " + e.text);
            } else {
                text[e.text].insert(e.conn);
            }
            if (t == "monitor" && e.msg["payload"]["track_id"].u() == 1) changed.insert(e.text);
        }
        int want_changed = edges_done && (!have_y || y != seen_y) && !changed.empty() ? 1 : 0;
        if (edges_done && have_y && y != seen_y && changed.empty() && !on.empty()) mc::fail("a change of a watched value is not reported");
        if (edges_done && have_y && y == seen_y && !changed.empty()) mc::fail("an unchanged value is reported");
        for (auto c : on) {
            if (n[c][0] != hits) mc::fail("client " + std::to_string(c) + " receives " + std::to_string(n[c][0]) + " pauses, expected " + std::to_string(hits));
            if (n[c][1] != edges_done + want_changed) mc::fail("client " + std::to_string(c) + " receives " + std::to_string(n[c][1]) + " values, expected " + std::to_string(edges_done + want_changed));
            if (n[c][2] != (c == asker)) mc::fail("client " + std::to_string(c) + " receives " + std::to_string(n[c][2]) + " replies");
        }
        for (auto &t : text)
            if (t.second != on) mc::fail("not every client receives " + t.first);
        if (edges_done) have_y = true, seen_y = y;
        mc::validated();
    };
    uint64_t tok = 0;
    for (int d = 0; d < depth; d++) {
        struct Op {
            char k;
            uint64_t c;
        };
        std::vector<Op> ops;
        if (w.idle()) ops.push_back({'e', 0});
        if (on.size() < 3 && !gone) ops.push_back({'o', 0});
        for (auto c : on) {
            ops.push_back({'x', c});
            if (w.paused() && !gone) ops.push_back({'c', c});
        }
        if (!on.empty() && !gone) {
            ops.push_back({'i', *on.rbegin()});
            ops.push_back({'d', *on.begin()});
        }
        auto o = ops[mc::choose(ops.size())];
        mc::trace(std::string(1, o.k) + std::to_string(o.c));
        auto n0 = w.evs.size();
        auto since = [&] { return std::vector<Ev>(w.evs.begin() + (long)n0, w.evs.end()); };
        auto t = "t" + std::to_string(tok++);
        switch (o.k) {
            case 'e': {
                if (mc::choose(2)) y++;
                std::map<std::string, uint64_t> v = {{k.tops[0] + ".x", (uint64_t)d}, {k.tops[0] + ".y", y}};
                auto evs = w.edge(v);
                if (gone) {
                    if (w.paused() || !evs.empty()) mc::fail("the simulation is disturbed after everyone left");
                } else {
                    if (w.paused() != bp) mc::fail(bp ? "no pause at the breakpoint" : "paused");
                    check(evs, bp, !bp, 0, "");
                }
                break;
            }
            case 'o':
                w.open(fresh);
                on.insert(fresh++);
                check(since(), 0, 0, 0, "");
                break;
            case 'x': {
                bool p = w.paused();
                on.erase(o.c);
                w.close(o.c);
                if (on.empty() && detach) {
                    gone = true;
                    if (w.paused()) mc::fail("the simulation is still stopped after the last client left");
                    if (!since().empty()) mc::fail("messages to nobody");
                    // nothing is left in the simulator
                    for (auto &c : w.vpi->callbacks())
                        if (c.find(std::to_string(cbValueChange) + ":") == 0) mc::fail("a callback stays after the debugger was detached: " + c);
                } else {
                    if (w.paused() != p) mc::fail(p ? "the simulation goes on because a client left" : "the simulation stops because a client left");
                    check(since(), 0, 0, 0, "");
                }
                break;
            }
            case 'c': {
                bool start = !w.started;
                auto j = world::r_cmd("continue");
                j.set("token", t);
                auto evs = w.send(o.c, j);
                if (w.paused()) mc::fail("the simulation does not go on");
                check(evs, 0, start ? 0 : 1, o.c, t.c_str());
                break;
            }
            case 'i': {
                auto j = world::r_info("status");
                j.set("token", t);
                check(w.send(o.c, j), 0, 0, o.c, t.c_str());
                break;
            }
            case 'd': {
                auto j = world::request("option-change", J::obj({{"detach_after_disconnect", !detach}}), t);
                check(w.send(o.c, j), 0, 0, o.c, t.c_str());
                detach = !detach;
                break;
            }
        }
        mc::state(mc::hash(std::to_string(on.size()) + (w.paused() ? "p" : "r") + (gone ? "g" : "-") + (detach ? "d" : "-") + cfg.product + std::to_string(top) + std::to_string(bp)));
    }
    // whoever comes later is served as well
    if (gone) {
        for (int i = 0; i < 2; i++) {
            auto evs = w.edge({{k.tops[0] + ".y", 77 + (uint64_t)i}});
            if (w.paused() || !evs.empty()) mc::fail("the simulation is disturbed after everyone left");
        }
    }
    w.open(fresh);
    on.insert(fresh);
    auto j = world::r_info("options");
    j.set("token", "last");
    check(w.send(fresh, j), 0, 0, fresh, "last");
    mc::nontrivial(mc::hash(std::to_string(on.size()) + (gone ? "g" : "-") + std::to_string(w.edges) + std::to_string(fresh)));
    mc::evaluation();
    mc::done();
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C25";
    c.shards = 4;
    c.tops = [] { return (size_t)(2 * 2 * 2); };
    c.body = body;
    return mc::main_(argc, argv, c);
}
