// C08: every interleaving (up to a preemption bound) of the simulation thread with the server
// thread handling resumes, stops, disconnects and option changes: a pause lasts until it is told
// to end and then ends; nothing pauses after a stop or detach; no data race, no dead lock.
// build: mc
#include "conc.hh"
using namespace model;
using conc::Conc;

struct Scn {
    const char *name;
    int edges;
    int bound_quick, bound_thorough;
};
static const std::vector<Scn> SCN = {
    {"hits", 2, 2, 3},              // 0: one client resumes
    {"stray continue", 2, 1, 2},    // 1..5 and a stray command of another client
    {"stray step_over", 2, 1, 2},
    {"stray reverse_continue", 2, 1, 2},
    {"stray step_back", 2, 1, 2},
    {"stray jump", 2, 1, 2},
    {"two resume", 2, 1, 2},        // 6: two clients resume the same pauses
    {"stop", 2, 1, 2},              // 7: another client stops
    {"leave", 2, 1, 2},             // 8: all leave, with detach on
    {"posedge", 2, 2, 3},           // 9: pause at every clock edge, too
    {"posedge stray", 2, 1, 2},     // 10
    {"posedge stop", 2, 1, 2},      // 11
    {"posedge leave", 2, 1, 2},     // 12
    {"start", 1, 1, 2},             // 13: from the start of the simulation
    {"start stop", 1, 2, 3},        // 14
    {"start leave", 1, 2, 3},       // 15
    {"start stray", 1, 1, 2},       // 16
    {"start free", 1, 1, 2},        // 17: not blocked at the start
    {"option on", 3, 1, 2},         // 18: the clock edge pauses are switched on meanwhile
    {"option off", 3, 1, 2},        // 19
    {"two strays", 2, 1, 2},        // 20
    {"stray and stop", 2, 1, 2},    // 21
    {"end", 2, 1, 2},               // 22: the simulation ends while requests come in
    {"no table", 2, 1, 2},          // 23: nothing loaded, clock edge pauses on
};
static void body(size_t top) {
    auto sc = SCN[top / 2];
    std::string n = sc.name;
    bool more = sc.edges == 2;
    if (!mc::thorough() && (n == "two resume" || n == "end")) sc.edges = 1;
    int copies = 1 + (int)(top & 1);
    int bound = mc::thorough() ? sc.bound_thorough : sc.bound_quick;
    auto has = [&](const char *t) { return n.find(t) != std::string::npos; };
    bool from_start = n.rfind("start", 0) == 0;
    world::Cfg cfg;
    if (n == "start free") cfg.args = {"sim", "+DEBUG_DISABLE_BLOCKING"};
    auto kit = design::kit1(copies);
    World w(cfg);
    design::bench1(w, kit);
    Conc c(w, kit);
    Ref ref(w, kit);
    auto loc = [&](uint32_t l) { return world::r_bp("add", "dut.py", l); };
    for (int e = 0; e < sc.edges; e++) {
        Vals v;
        for (auto &t : kit.tops) {
            v[t + ".a"] = 1;
            v[t + ".b"] = e & 1;
            v[t + ".c0.p"] = v[t + ".c1.p"] = 0;
        }
        w.script.push_back(v);
    }
    auto script = w.script;
    bool exact = true;
    if (from_start) {
        w.create();
        w.cfg.mode = mcrt::Mode::Explore;
        c.blocking = n != "start free";
        c.log.push_back({'-'});
        if (c.blocking) c.open_pause = 0;
        for (auto *s : ref.at("dut.py", 2)) ref.insert(*s, uc_true());
        auto *srv = w.server();
        w.start();
        c.queue("open 1", [srv] { srv->open(1); });
        if (has("leave")) c.message(1, world::request("option-change", J::obj({{"detach_after_disconnect", true}})));
        if (!has("stop") && !has("leave")) {
            c.message(1, world::r_connect(kit.path));
            c.message(1, loc(2));
        }
        if (n == "start stray") c.command(1, "continue");
        if (has("stop"))
            c.command(1, "stop");
        else if (has("leave"))
            c.queue("close 1", [srv] { srv->close(1); }, false, true);
        else
            c.resumer(1);
        exact = false;
    } else {
        auto later = w.script;
        w.script.clear();
        if (n == "no table") {
            w.create();
            w.start();
            w.open(1);
        } else
            bring_up(w, kit);
        w.open(2);
        bool leave = has("leave");
        must(w, world::request("option-change", J::obj({{"detach_after_disconnect", leave}})));
        if (n != "no table") {
            must(w, loc(2));
            for (auto *s : ref.at("dut.py", 2)) ref.insert(*s, uc_true());
            if (more && !has("posedge")) {
                must(w, loc(4));
                for (auto *s : ref.at("dut.py", 4)) ref.insert(*s, uc_true());
            }
        }
        if (has("posedge") || n == "option off" || n == "no table") {
            must(w, world::request("option-change", J::obj({{"pause_at_posedge", true}})));
            if (has("posedge")) c.posedge = true;
        }
        ref.go();
        if (n == "no table") w.edge();  // nothing is evaluated without a table
        c.log.clear();
        c.ops.clear();
        w.script = later;
        c.begin_log();
        c.resumer(1);
        if (n == "two resume") c.resumer(2);
        if (n.rfind("stray ", 0) == 0) {
            auto cmd = n.substr(6);
            if (cmd == "and stop") {
                c.command(2, "continue");
                c.command(2, "stop");
                exact = false;
            } else if (cmd == "jump")
                c.message(2, world::request("command", J::obj({{"command", "jump"}, {"time", 1}})), true);
            else {
                c.command(2, cmd.c_str());
                exact = cmd == "continue";
            }
        }
        if (n == "two strays") {
            c.command(2, "continue");
            c.command(2, "continue");
        }
        if (n == "posedge stray") c.command(2, "continue");
        if (n == "stop" || n == "posedge stop") {
            c.command(2, "stop");
            exact = false;
        }
        if (leave) {
            auto *srv = w.server();
            c.queue("close 2", [srv] { srv->close(2); });
            c.queue("close 1", [srv] { srv->close(1); }, false, true);
            exact = false;
        }
        if (n == "option on" || n == "option off") c.message(2, world::request("option-change", J::obj({{"pause_at_posedge", n == "option on"}})));
        if (n == "end") {
            c.message(2, world::r_info("status"));
            c.message(2, world::r_info("breakpoints"));
        }
    }
    bool ended = false;
    if (n == "end") {
        // the simulator tells the debugger when it ends
        mcrt::spawn(
            [&] {
                mcrt::block_until([&] { return w.idle() && w.script.empty(); }, "end");
                mcrt::Watch watch(true);
                w.dbg->stop();
                ended = true;
            },
            "end");
    }
    c.explore(bound);
    mc::counter(sc.name, 1);
    w.cfg.mode = mcrt::Mode::Seq;
    c.check_idle();
    if (n == "end") {
        if (!ended) mc::fail("the debugger cannot be stopped at the end of the simulation");
        if (!w.server()->is_stopped()) mc::fail("the server runs on after the end");
        return;
    }
    for (auto &o : c.ops) {
        if (!o.request || (o.r < 0 && w.server()->is_stopped())) continue;
        bool gone = false;
        for (auto &p : c.ops) gone = gone || (p.frees && p.r >= 0 && o.d > p.r);
        if (!gone && !has("leave") && o.replies.size() != 1) mc::fail(std::to_string(o.replies.size()) + " replies to " + o.what);
    }
    if (n == "no table") return;
    if (exact) {
        auto got = c.edges(ref);
        if (got.size() != script.size()) mc::fail("the simulation ran " + std::to_string(got.size()) + " edges");
        for (size_t i = 0; i < got.size(); i++)
            for (auto &e : ref.bps) {
                bool want = ref.hits(e, script[i]);
                int k = got[i].count({e.id, e.copy}) ? got[i].at({e.id, e.copy}) : 0;
                if (k != (want ? 1 : 0)) mc::fail("breakpoint " + std::to_string(e.id) + "/" + std::to_string(e.copy) + " is reported " + std::to_string(k) + " times at edge " + std::to_string(i));
            }
    }
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C08";
    c.tops = [] { return SCN.size() * 2; };
    c.body = body;
    c.shards = 6;
    return mc::main_(argc, argv, c);
}
