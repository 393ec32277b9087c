// C28: every history of simulator events (start, clock edges, other changes, time steps, end) and
// detaching up to a depth, for every kind of simulator and way of registering: the debugger starts,
// evaluates, lets go and ends exactly when it has to.
// build: asan
#include "fwd.hh"
#include "model.hh"
#include "sim.hh"
using namespace model;

namespace vpi_stub {
extern hgdb::AVPIProvider *target;
extern uint64_t direct_calls;
}  // namespace vpi_stub

static const char *PRODUCT[] = {"RTLMock", "Verilator", "xmsim", "Chronologic Simulation VCS Release", "Icarus Verilog"};
// where the clocks are
enum Clk { InDut, OtherName, OneUp, TwoNamed, NoClock, NCLK };

extern "C" {
extern void (*vlog_startup_routines[])();
}

struct Life {
    std::shared_ptr<sim::Vpi> vpi = std::make_shared<sim::Vpi>();
    std::vector<Ev> evs;
    bool gone = false;
    bool own;
    hgdb::Debugger *dbg = nullptr;
    std::function<void()> job;
    bool busy = false, quit = false;
    int fiber = -1;

    Life(const char *product, bool own) : own(own) {
        wsg::reset();
        vpi->product = product;
        vpi->args = {"sim"};
        vpi->on_bad_handle = [](const std::string &w) { mc::fail(w); };
        vpi->on_budget = [](const char *f) { mc::fail(std::string("the debugger keeps calling ") + f); };
        vpi->call_budget = 5000000;
        mcrt::start(mcrt::Mode::Seq);
        wsg::on_sent = [this](const wsg::Msg &m) {
            Ev e{m.conn, mcrt::current(), J(), m.text};
            if (!mj::parse(m.text, e.msg)) mc::fail("not JSON: " + m.text);
            evs.push_back(e);
        };
        vpi_stub::target = own ? nullptr : vpi.get();
        vpi_stub::direct_calls = 0;
        fiber = mcrt::spawn(
            [this] {
                while (true) {
                    mcrt::block_until([this] { return job || quit; }, "simulator");
                    if (quit) return;
                    auto j = job;
                    job = nullptr;
                    j();
                    busy = false;
                }
            },
            "simulator");
        mcrt::settle();
    }
    ~Life() {
        quit = true;
        mcrt::settle();
        vpi_stub::target = nullptr;
        wsg::on_sent = nullptr;
        mcrt::finish();
    }
    // something that happens in the simulator's thread; returns the messages it led to
    std::vector<Ev> run(std::function<void()> f) {
        if (busy) mc::fail("harness: the simulator is stopped");
        auto n = evs.size();
        job = std::move(f);
        busy = true;
        mcrt::settle();
        return {evs.begin() + (long)n, evs.end()};
    }
    bool paused() { return busy; }
    websocketpp::fake::ServerBase *server() { return wsg::servers.empty() ? nullptr : wsg::servers[0]; }
    std::vector<Ev> net(std::function<void(websocketpp::fake::ServerBase *)> f) {
        auto *s = server();
        if (!s) mc::fail("no server");
        auto n = evs.size();
        s->queue([s, f] { f(s); });
        mcrt::settle();
        return {evs.begin() + (long)n, evs.end()};
    }
    std::vector<Ev> send(uint64_t c, const J &j) {
        auto t = j.dump();
        mc::trace("request " + t);
        return net([c, t](auto *s) { s->deliver(c, t); });
    }
    void must(const J &j) {
        auto e = send(1, j);
        if (model::status(e) != "success") mc::fail("request " + j.dump() + " fails");
    }
};

static void body(size_t top) {
    const int depth = mc::thorough() ? 5 : 3;
    auto *product = PRODUCT[top % 5];
    bool verilator = top % 5 == 1;
    top /= 5;
    bool own = top % 2;
    top /= 2;
    bool start_server = top % 2;
    top /= 2;
    int copies = 1 + (int)(top % 2);
    top /= 2;
    auto clk = (Clk)(top % NCLK);
    auto kit = design::kit1(copies);
    if (clk == TwoNamed) {
        kit.table.set("attributes", J::arr({J::obj({{"name", "clock"}, {"value", "dut.clk_a"}}), J::obj({{"name", "clock"}, {"value", "dut.clk_b"}}), J::obj({{"name", "unrelated"}, {"value", "dut.en"}})}));
        design::write_table(kit.table);
    }
    Life l(product, own);
    auto &v = *l.vpi;
    v.add_module("tb", "tb");
    for (auto &t : kit.tops) {
        v.add_module("dut", t);
        for (auto *s : {"a", "b", "x", "y", "z"}) v.add_signal(t + "." + s, 8);
        v.add_signal(t + ".en", 1);
        if (clk == InDut) v.add_signal(t + ".clk", 1);
        if (clk == InDut) v.add_signal(t + ".clock", 1);  // only one is taken
        if (clk == OtherName) v.add_signal(t + ".clk", 8), v.add_signal(t + ".CLOCK", 1);
        if (clk == TwoNamed) v.add_signal(t + ".clk_a", 1), v.add_signal(t + ".clk_b", 1), v.add_signal(t + ".clk", 1);
        for (auto *c : {".c0", ".c1"}) {
            v.add_module("child", t + c);
            for (auto *s : {"clk", "p", "q", "r"}) v.add_signal(t + c + "." + s, s[0] == 'c' ? 1 : 8);
        }
    }
    if (clk == OneUp) v.add_signal("tb.clk_in", 1);
    auto &t0 = kit.tops[0];
    std::vector<std::string> clocks;
    switch (clk) {
        case InDut: clocks = {t0 + ".clk"}; break;
        case OtherName: clocks = {t0 + ".CLOCK"}; break;
        case OneUp: clocks = {"tb.clk_in"}; break;
        case TwoNamed: clocks = {t0 + ".clk_a", t0 + ".clk_b"}; break;
        default: break;
    }
    mc::note(std::string(product) + (own ? ", own provider" : ", system") + (start_server ? ", started at once" : ", started by the simulator") + ", clocks " + std::to_string((int)clk) + ", copies " + std::to_string(copies));

    // what is registered, by reason
    auto reg = [&] {
        std::multiset<std::string> r;
        for (auto &c : v.callbacks()) r.insert(c);
        return r;
    };
    bool started = false, connected = false, detached = false, ended = false;
    auto check_callbacks = [&](const char *when) {
        std::multiset<std::string> want;
        // the end of the simulation makes no difference to what the simulator keeps
        if (!start_server) want.insert(std::to_string(cbStartOfSimulation) + ":");
        want.insert(std::to_string(cbEndOfSimulation) + ":");
        if (!detached && !ended) {
            if (verilator) want.insert(std::to_string(cbNextSimTime) + ":");
            if (connected && !verilator)
                for (auto &c : clocks) want.insert(std::to_string(cbValueChange) + ":" + c);
        }
        auto got = reg();
        if (got != want) {
            std::string s, g;
            for (auto &x : want) s += x + " ";
            for (auto &x : got) g += x + " ";
            mc::fail(std::string(when) + ": the callbacks registered are " + g + ", expected " + s);
        }
    };
    auto init = [&] {
        std::unique_ptr<hgdb::AVPIProvider> p;
        if (own) p = std::make_unique<sim::Fwd>(v, &l.gone);
        l.dbg = hgdb::initialize_hgdb_runtime_vpi(std::move(p), start_server);
    };
    l.run(init);
    if (start_server) {
        if (!l.paused()) mc::fail("the simulation is not stopped at its start");
        started = true;
    } else {
        if (l.paused() || !l.dbg) mc::fail("registering fails");
        if (wsg::port != -1) mc::fail("the server runs before the start of the simulation");
    }
    if (v.systf != (verilator ? std::vector<std::string>{} : std::vector<std::string>{"$hgdb_assert_fail"})) mc::fail("system tasks registered: " + std::to_string(v.systf.size()));
    if (own && vpi_stub::direct_calls > (start_server ? 0u : 1u)) mc::fail("calls that go past the given provider");
    if (!start_server) check_callbacks("after registration");
    bool never_started = false;
    if (!start_server) {
        if (mc::choose(2)) {
            // elaborated only
            never_started = true;
        } else {
            l.run([&] { v.fire(cbStartOfSimulation, nullptr); });
            started = true;
            if (!l.paused()) mc::fail("the simulation is not stopped at its start");
        }
    }
    bool let_go = false;
    auto connect = [&] {
        l.must(world::r_connect(kit.path));
        connected = true;
    };
    if (started) {
        if (!l.server() || wsg::port == -1) mc::fail("the server does not run after the start");
        l.net([](auto *s) { s->open(1); });
        bool with_db = mc::choose(2) == 0;
        if (with_db) {
            connect();
            l.must(world::r_bp("add", "dut.py", 1));
        }
        auto e = l.send(1, world::r_cmd("continue"));
        if (l.paused()) mc::fail("does not start");
        let_go = true;
        check_callbacks("after the connection");
    }
    uint64_t evals = 0;
    auto expect = [&](const std::vector<Ev> &evs0, int n, const char *what) {
        // one pause for each evaluation
        auto evs = evs0;
        auto hs = Ref::hits_in(evs);
        int seen = 0;
        std::set<std::pair<uint32_t, uint32_t>> rep;
        int guard = 0;
        while (l.paused()) {
            if (hs.size() != 1) mc::fail(std::string(what) + ": stopped with " + std::to_string(hs.size()) + " hits");
            for (auto &s : hs[0].scopes)
                if (rep.count({s.bp_id, s.ns_id}))
                    seen++, rep.clear(), rep.insert({s.bp_id, s.ns_id});
                else
                    rep.insert({s.bp_id, s.ns_id});
            if (++guard > 20) mc::fail(std::string(what) + ": stops again and again");
            hs = Ref::hits_in(l.send(1, world::r_cmd("continue")));
        }
        if (!hs.empty()) mc::fail("a hit without a pause");
        if (!rep.empty()) seen++;
        if (seen != n) mc::fail(std::string(what) + ": evaluated " + std::to_string(seen) + " times, expected " + std::to_string(n));
        evals += (uint64_t)n;
        mc::validated();
    };
    for (int d = 0; d < depth && started && !ended; d++) {
        v.time += 5;
        bool live = connected && !detached;
        std::string what;
        switch (1 + mc::choose(detached ? 4 : 5)) {
            case 1: {
                // one of the clocks changes (the first or the last)
                bool last = clocks.size() > 1 && d % 2;
                auto c = clocks.empty() ? t0 + ".en" : last ? clocks.back() : clocks[0];
                int val = !v.get(c);
                what = c + "=" + std::to_string(val);
                mc::trace(what);
                expect(l.run([&] { v.drive(c, val); }), live && !verilator && val && !clocks.empty() ? 1 : 0, what.c_str());
                break;
            }
            case 2: {
                // anything else
                what = "other signals change";
                mc::trace(what);
                expect(l.run([&] {
                    for (auto &p : v.values()) {
                        bool is_clk = false;
                        for (auto &c : clocks) is_clk = is_clk || c == p.first;
                        if (!is_clk) v.drive(p.first, !p.second);
                    }
                }), 0, what.c_str());
                break;
            }
            case 3:
                what = "time step";
                mc::trace(what);
                expect(l.run([&] { v.fire(cbNextSimTime, nullptr); }), live && verilator ? 1 : 0, what.c_str());
                break;
            case 5:
                if (mc::choose(2) == 0) {
                    what = "detach";
                    mc::trace(what);
                    l.must(world::request("option-change", J::obj({{"detach_after_disconnect", true}})));
                    l.net([](auto *s) { s->close(1); });
                    // nobody was connected to a symbol table: still let go
                    detached = true;
                } else {
                    what = "connect again";
                    mc::trace(what);
                    connect();
                    l.must(world::r_bp("add", "dut.py", 1));
                }
                break;
            case 4:
                ended = true;
                break;
        }
        if (!ended) check_callbacks(what.c_str());
        mc::state(mc::hash(std::string(product) + v.callbacks().back() + std::to_string(detached) + std::to_string(connected) + std::to_string(evals)));
        mc::transition();
    }
    (void)never_started;
    (void)let_go;
    // the end of the simulation
    mc::trace("end of simulation");
    ended = true;
    l.run([&] { v.fire(cbEndOfSimulation, nullptr); });
    if (l.paused()) mc::fail("the end of the simulation is never reached: " + mcrt::describe());
    if (own && !l.gone) mc::fail("the debugger is not freed at the end of the simulation");
    if (l.server()) mc::fail("the server is not freed at the end of the simulation");
    // without a start the simulator has no later time step either
    if (!never_started) check_callbacks("after the end");
    mc::nontrivial(mc::hash(std::string(product) + std::to_string(evals) + std::to_string((int)clk) + std::to_string(detached)));
    mc::evaluation();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C28";
    c.tops = [] { return (size_t)(5 * 2 * 2 * 2 * NCLK + 1); };
    c.body = [](size_t top) {
        if (top < 5 * 2 * 2 * 2 * NCLK) return body(top);
        // while VCS compiles the design there is no simulation: only the system task is registered
        Life l("VCS", false);
        l.vpi->no_vlog = true;
        hgdb::Debugger *d = (hgdb::Debugger *)1;
        l.run([&] { d = hgdb::initialize_hgdb_runtime_vpi(nullptr, false); });
        if (d) mc::fail("a debugger is made while the design is compiled");
        if (l.vpi->systf != std::vector<std::string>{"$hgdb_assert_fail"}) mc::fail("the assertion task is not registered for compilation");
        if (!l.vpi->callbacks().empty() || l.server()) mc::fail("callbacks are registered while the design is compiled");
        // the routine of the start-up table
        l.run([&] { vlog_startup_routines[0](); });
        if (vlog_startup_routines[1]) mc::fail("the table of start-up routines does not end");
        if (!l.vpi->callbacks().empty()) mc::fail("callbacks are registered while the design is compiled");
    };
    return mc::main_(argc, argv, c);
}
