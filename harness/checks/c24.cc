// C24: every sequence of option changes up to the bound against the reported options, and every
// placement of option changes in a debugging session (at the start, between edges, at pauses)
// against what each option has to do to pauses, values and disconnects.
// build: plain
#include "model.hh"
using namespace model;

static const std::vector<std::string> NAMES = {"single_thread_mode", "log_enabled", "detach_after_disconnect", "use_hex_str",
                                               "pause_at_posedge", "perf_count", "use_signal_cache"};
static std::map<std::string, std::string> reported(World &w, bool quiet = false) {
    auto evs = w.send(1, world::r_info("options"));
    if (status(evs) != "success") mc::fail("the options are not reported");
    std::map<std::string, std::string> r;
    for (auto &p : evs.back().msg["payload"]["options"].o) r[p.first] = p.second.dump();
    if (!quiet) mc::validated();
    return r;
}
static std::string show(const std::map<std::string, std::string> &m) {
    std::string s;
    for (auto &p : m) s += p.first + "=" + p.second + " ";
    return s;
}
// all sequences of option requests
static std::vector<J> payloads() {
    std::vector<J> r;
    for (auto &n : NAMES)
        for (bool b : {true, false}) r.push_back(J::obj({{n, b}}));
    for (auto &n : {NAMES[0], NAMES[3], NAMES[6]}) {
        r.push_back(J::obj({{n, 1}}));
        r.push_back(J::obj({{n, "true"}}));
        r.push_back(J::obj({{n, J()}}));
        r.push_back(J::obj({{n, J::arr()}}));
        r.push_back(J::obj({{n, J::obj({{"a", true}})}}));
        r.push_back(J::obj({{n, 1.5}}));
        r.push_back(J::obj({{n, -1}}));
    }
    r.push_back(J::obj({{"nosuch", true}}));
    r.push_back(J::obj({{"nosuch", 3}}));
    r.push_back(J::obj({{"", true}}));
    r.push_back(J::obj({{"USE_HEX_STR", true}}));
    r.push_back(J::obj({{"use_hex_str ", true}}));
    r.push_back(J::obj({{"use_hex", true}}));
    r.push_back(J::obj({}));
    r.push_back(J::arr());
    r.push_back(J("use_hex_str"));
    r.push_back(J::obj({{"use_hex_str", true}, {"pause_at_posedge", true}}));
    r.push_back(J::obj({{"single_thread_mode", true}, {"nosuch", false}}));
    r.push_back(J::obj({{"use_hex_str", false}, {"use_signal_cache", true}, {"detach_after_disconnect", true}}));
    r.push_back(J::obj({{"use_hex_str", true}, {"single_thread_mode", 1}}));
    r.push_back(J::obj({{"use_signal_cache", true}, {"log_enabled", J()}}));
    return r;
}
static void sequences(size_t first, int vendor) {
    auto kit = design::kit1(1);
    World::Snap sn;
    (void)sn;
    world::Cfg cfg;
    cfg.product = vendor ? "Chronologic Simulation VCS Release" : "RTLMock";
    World w(cfg);
    design::bench1(w, kit);
    w.create();
    w.start();
    w.open(1);
    auto all = payloads();
    auto model = reported(w);
    for (auto &n : NAMES)
        if (!model.count(n)) mc::fail("option " + n + " is not reported");
    if (model.size() != NAMES.size()) mc::fail("unexpected options: " + show(model));
    int depth = mc::thorough() ? 3 : 2;
    for (int d = 0; d < depth; d++) {
        auto &p = all[d == 0 ? first : (size_t)mc::choose((int)all.size())];
        auto req = world::request("option-change", p, "tk");
        mc::trace(req.dump());
        auto st = status(w.send(1, req));
        if (st.empty()) mc::fail("no reply to " + req.dump());
        auto now = reported(w);
        // valid members apply; a request with something invalid in it may be rejected as a whole
        auto want = model, none = model;
        bool bad = p.t != J::Obj;
        if (!bad)
            for (auto &m : p.o) {
                bool known = model.count(m.first), b = m.second.t == J::Bool;
                if (known && b)
                    want[m.first] = m.second.b ? "true" : "false";
                else
                    bad = true;
            }
        if (now != want && !(bad && now == none)) mc::fail("after " + req.dump() + " the options are " + show(now) + ", expected " + show(want));
        if (!bad && st != "success") mc::fail(req.dump() + " answered with " + st);
        model = now;
        mc::state(mc::hash(show(now)));
        mc::evaluation();
    }
}
// the effects
static void effects(size_t top) {
    int copies = 1 + (int)(top & 1);
    int bits = (int)(top >> 1) & 15;  // single, hex, posedge, cache
    bool rewind = top >> 5 & 1;
    world::Cfg cfg;
    cfg.rewind = rewind;
    World w(cfg);
    auto kit = design::kit1(copies);
    design::bench1(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    std::map<std::string, bool> opt;
    auto set = [&](const std::string &n, bool v) {
        opt[n] = v;
        must(w, world::request("option-change", J::obj({{n, v}})));
        ref.single = opt["single_thread_mode"];
        auto r = reported(w, true);
        for (auto &p : opt)
            if (r.at(p.first) != (p.second ? "true" : "false")) mc::fail("option " + p.first + " is reported as " + r.at(p.first));
    };
    static const char *OPT[] = {"single_thread_mode", "use_hex_str", "pause_at_posedge", "use_signal_cache", "log_enabled"};
    for (int i = 0; i < 4; i++) set(OPT[i], bits >> i & 1);
    opt["log_enabled"] = false;
    for (auto *f : {"dut.py", "child.py"})
        for (uint32_t l : {1u, 3u, 4u, 10u, 11u}) {
            auto at = ref.at(f, l);
            if (at.empty() || (rewind && l == 1)) continue;
            UCond c = l == 4 ? uc_lit("a") : uc_true();
            must(w, world::r_bp("add", f, l, 0, c.text));
            for (auto *s : at) ref.insert(*s, c);
        }
    ref.go();
    int toggles = mc::thorough() ? 3 : 1, revs = rewind ? 1 : 0;
    auto values = [&](const std::vector<Ev> &evs) {
        for (auto &e : evs) {
            if (e.conn != 1) continue;
            bool pretty = e.text.find('\n') != std::string::npos;
            if (pretty && !opt["log_enabled"]) mc::fail("a message is laid out for logging although logging is off");
        }
        for (auto &h : Ref::hits_in(evs))
            for (auto &sc : h.scopes)
                for (auto &l : sc.local) {
                    auto *s = kit.by_id(sc.bp_id);
                    auto n = kit.full(s->inst, ref.copy_of(sc.ns_id)) + "." + l.first;
                    if (!w.vpi->find(n)) continue;
                    auto v = w.vpi->get(n);
                    char hex[20];
                    snprintf(hex, sizeof hex, "0x%02llX", (unsigned long long)v);
                    std::string want = opt["use_hex_str"] ? hex : std::to_string(v);
                    if (l.second != want) mc::fail(n + " is reported as " + l.second + ", expected " + want);
                }
    };
    Vals v;
    for (int e = 0; e < (mc::thorough() ? 3 : 2); e++) {
        auto x = mc::choose(e && !mc::thorough() ? 2 : 3);
        for (auto &t : kit.tops) {
            v[t + ".a"] = x != 1;
            v[t + ".b"] = x == 2 ? 7 : 0;
            v[t + ".x"] = (uint64_t)(100 + e);
            v[t + ".z"] = (uint64_t)(31 * e + 5);
            v[t + ".q"] = 0;
            v.erase(t + ".q");
            for (auto *c : {".c0", ".c1"}) {
                v[t + c + ".p"] = (uint64_t)((x + e + (c[2] == '1')) & 1);
                v[t + c + ".q"] = (uint64_t)(200 + e);
            }
        }
        bool posedge = opt["pause_at_posedge"];
        ref.new_edge();
        mc::trace("edge " + std::to_string(e) + (posedge ? " (pauses first)" : ""));
        auto evs = w.edge(v);
        // with copies reported one by one and together within one edge, what is the previous
        // location depends on how one counts
        bool mixed = false;
        auto any_toggle = [&] {
            if (toggles <= 0) return;
            auto k = mc::choose(6);
            if (!k) return;
            toggles--;
            set(OPT[k - 1], !opt[OPT[k - 1]]);
            mixed |= k == 1;
            mc::nontrivial(mc::hash(std::string(OPT[k - 1]) + std::to_string(opt[OPT[k - 1]]) + std::to_string(bits) + std::to_string(e)));
        };
        ref.mode = Cont;
        if (posedge) {
            if (!w.paused()) mc::fail("no pause at the clock edge");
            if (!Ref::hits_in(evs).empty()) mc::fail("a hit at the pause of the clock edge");
            any_toggle();
            mc::trace("command continue");
            evs = w.send(1, world::r_cmd("continue"));
        }
        bool p = ref.check(evs);
        values(evs);
        while (p) {
            for (auto &ev : evs)
                if (design::is_hit(ev.msg)) mc::trace("  -> " + design::show(design::parse_hit(ev.msg)));
            any_toggle();
            auto n = w.evs.size();
            if (revs > 0 && (e || mc::thorough()) && !mixed && mc::choose(2)) {
                revs--;
                p = ref.resume(Rev);
            } else
                p = ref.resume(Cont);
            evs = {w.evs.begin() + (long)n, w.evs.end()};
            values(evs);
        }
    }
    mc::evaluation();
}
// the simulation is released by the last disconnect exactly if the option says so
static void disconnects(size_t top) {
    bool detach = top & 1, late = top >> 1 & 1;
    int where = (int)(top >> 2) % 4;  // at the start, between edges, at a hit, at a clock edge pause
    int clients = 1 + (int)(top >> 4) % 2;
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    if (clients == 2) w.open(2);
    auto opt = [&](const char *n, bool v) { must(w, world::request("option-change", J::obj({{n, v}}))); };
    if (!late) opt("detach_after_disconnect", detach);
    if (late) opt("detach_after_disconnect", !detach);
    must(w, world::r_bp("add", "dut.py", 1));
    if (where == 3) opt("pause_at_posedge", true);
    if (where >= 1) w.send(1, world::r_cmd("continue"));
    if (where >= 2) w.edge();
    if (where != 1 && !w.paused()) mc::fail("not paused");
    if (late) opt("detach_after_disconnect", detach);
    std::vector<uint64_t> left = {1};
    if (clients == 2) {
        left = {(uint64_t)(1 + mc::choose(2))};
        w.close(3 - left[0]);
        if (w.paused() != (where != 1)) mc::fail("a disconnect lets the simulation go while there is another client");
    }
    w.close(left[0]);
    mc::evaluation();
    mc::validated();
    mc::state(mc::hash("disc" + std::to_string(top)));
    if (detach) {
        if (w.paused()) mc::fail("the simulation stays paused although it should be released by the last disconnect");
        for (int e = 0; e < 3; e++) {
            w.edge();
            if (!w.idle()) mc::fail("the simulation pauses after everybody has left");
        }
        for (auto &c : w.vpi->callbacks())
            if (c.rfind(std::to_string(cbValueChange) + ":", 0) == 0) mc::fail("the clock callback remains");
        return;
    }
    if (w.paused() != (where != 1)) mc::fail("a disconnect lets the simulation go");
    // another client takes over
    w.open(3);
    if (w.paused()) {
        auto evs = w.send(3, world::r_cmd("continue"));
        if (status(evs, 3) != "success") mc::fail("the next client cannot continue");
        for (int i = 0; i < 3 && w.paused(); i++) w.send(3, world::r_cmd("continue"));
    }
    if (!w.idle()) mc::fail("the next client cannot resume the simulation");
    auto evs = w.edge();
    if (!w.paused()) mc::fail("the breakpoint is lost with its client");
    if (where == 3) evs = w.send(3, world::r_cmd("continue"));
    if (Ref::hits_in(evs, 3).size() != 1) mc::fail("the next client is not told about the pause");
}
static size_t NP() { return payloads().size(); }
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C24";
    c.tops = [] { return NP() * 2 + 64 + 32; };
    c.body = [](size_t t) {
        if (t < 64) return effects(t);
        t -= 64;
        if (t < 32) return disconnects(t);
        t -= 32;
        sequences(t / 2, (int)(t & 1));
    };
    return mc::main_(argc, argv, c);
}
