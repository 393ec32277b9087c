// The debugger with its server thread and the simulator thread as fibres, a scripted client side
// and the small simulator of simvpi.hh.
#pragma once
#include <cstdlib>
#include <fstream>
#include <memory>

#include "debug.hh"
#include "explore.hh"
#include "fiber.hh"
#include "mj.hh"
#include "simvpi.hh"
#include "ws_glue.hh"

namespace world {
using mj::J;

struct Ev {
    uint64_t conn;
    int fiber;  // the fibre that sent it
    J msg;
    std::string text;
};

struct Cfg {
    std::string product = "RTLMock";
    std::vector<std::string> args;
    bool rewind = false;
    bool defname = true;
    uint64_t call_budget = 2000000;
    mcrt::Mode mode = mcrt::Mode::Seq;
    std::string clk = "tb.clk";
};

class World {
public:
    std::shared_ptr<sim::Vpi> vpi;
    std::unique_ptr<hgdb::Debugger> dbg;
    Cfg cfg;
    std::vector<Ev> evs;     // everything the server sent, in order
    int sim_fiber = -1;
    bool started = false, in_edge = false, quit = false;
    bool want_edge = false;
    uint64_t edges = 0;      // finished edges
    // values of the signals at the edges so far (for rewinding); the current edge is last
    struct Snap {
        uint64_t time;
        std::map<std::string, uint64_t> v;
    };
    std::vector<Snap> hist;
    std::map<std::string, uint64_t> next_values;
    uint64_t rewinds = 0;
    // edges the simulator runs by itself, and who is told about its steps
    std::vector<std::map<std::string, uint64_t>> script;
    std::function<void(char)> on_sim;
    std::function<void(const Ev &)> on_ev;

    explicit World(const Cfg &c = Cfg()) : cfg(c) {
        wsg::reset();
        vpi = std::make_shared<sim::Vpi>();
        vpi->product = c.product;
        vpi->args = c.args;
        if (vpi->args.empty()) vpi->args = {"sim"};
        vpi->defname = c.defname;
        vpi->rewind_ok = c.rewind;
        vpi->on_bad_handle = [](const std::string &w) { mc::fail(w); };
        vpi->on_budget = [this](const char *fn) {
            mc::fail(std::string("the debugger keeps calling the simulator without pausing or "
                                 "returning (") + fn + ")");
        };
        vpi->on_rewind = [this](uint64_t t) {
            // back to the last posedge strictly before t
            rewinds++;
            if (hist.size() < 2) return false;
            int k = (int)hist.size() - 1;
            while (k >= 0 && hist[k].time >= t) k--;
            if (k < 0) return false;
            hist.resize(k + 1);
            vpi->time = hist.back().time;
            for (auto &p : hist.back().v) vpi->find(p.first)->value = p.second;
            return true;
        };
    }
    // after the hierarchy has been built
    void create() {
        mcrt::start(cfg.mode);
        on_ = true;
        wsg::on_sent = [this](const wsg::Msg &m) {
            Ev e{m.conn, mcrt::current(), J(), m.text};
            if (!mj::parse(m.text, e.msg)) mc::fail("the server sent text that is not JSON: " + m.text);
            evs.push_back(e);
            if (on_ev) on_ev(e);
        };
        dbg = std::make_unique<hgdb::Debugger>(vpi);
    }
    void start() {
        sim_fiber = mcrt::spawn(
            [this]() {
                budget();
                {
                    mcrt::Watch watch(true);
                    dbg->run();
                }
                started = true;
                if (on_sim) on_sim('S');
                while (true) {
                    mcrt::block_until([this] { return want_edge || quit || !script.empty(); }, "sim idle");
                    if (quit) break;
                    if (!script.empty()) {
                        next_values = script.front();
                        script.erase(script.begin());
                    }
                    want_edge = false;
                    in_edge = true;
                    if (on_sim) on_sim('B');
                    do_edge();
                    if (on_sim) on_sim('E');
                    in_edge = false;
                    edges++;
                }
            },
            "simulator");
        if (cfg.mode == mcrt::Mode::Seq) settle();
    }
    void budget() { vpi->call_budget = cfg.call_budget; }
    void do_edge() {
        vpi->time += 5;
        vpi->drive(cfg.clk, 0);
        vpi->time += 5;
        for (auto &p : next_values) vpi->set(p.first, p.second);
        Snap s;
        s.time = vpi->time;
        s.v = vpi->values();
        s.v[cfg.clk] = 1;
        hist.push_back(s);
        budget();
        if (cfg.product == "Verilator") {
            // it evaluates at every step instead (cbNextSimTime)
            vpi->set(cfg.clk, 1);
            mcrt::Watch watch(true);
            dbg->eval();
        } else {
            vpi->drive(cfg.clk, 1);
        }
    }
    websocketpp::fake::ServerBase *server() { return wsg::servers.empty() ? nullptr : wsg::servers[0]; }
    void settle() {
        budget();
        mcrt::settle();
    }
    // paused: the simulator thread is held inside the debugger
    bool paused() { return mcrt::blocked(sim_fiber) && (in_edge || !started); }
    bool idle() { return started && !in_edge; }
    void open(uint64_t c) {
        server()->queue([this, c] { server()->open(c); });
        settle();
    }
    void close(uint64_t c) {
        server()->queue([this, c] { server()->close(c); });
        settle();
    }
    // delivers a message and lets everything run until it is quiet; returns the new messages
    std::vector<Ev> send(uint64_t c, const std::string &text) {
        auto n = evs.size();
        server()->queue([this, c, text] { server()->deliver(c, text); });
        mc::transition();
        settle();
        return {evs.begin() + (long)n, evs.end()};
    }
    std::vector<Ev> send(uint64_t c, const J &j) { return send(c, j.dump()); }
    // one clock edge; returns the new messages
    std::vector<Ev> edge(const std::map<std::string, uint64_t> &values = {}) {
        auto n = evs.size();
        next_values = values;
        want_edge = true;
        mc::transition();
        settle();
        return {evs.begin() + (long)n, evs.end()};
    }
    void shutdown() {
        if (!on_) return;
        if (dbg && sim_fiber >= 0) {
            quit = true;
            dbg->stop();
            if (cfg.mode == mcrt::Mode::Seq) {
                mcrt::settle();
                if (mcrt::finished(sim_fiber) && server() && server()->is_stopped())
                    dbg.reset();
                else
                    (void)dbg.release();
            } else {
                (void)dbg.release();
            }
        } else {
            dbg.reset();
        }
        mcrt::finish();
        on_ = false;
        wsg::on_sent = nullptr;
    }
    ~World() {
        shutdown();
        mcrt::finish();
    }

private:
    bool on_ = false;
};

// ---- requests ----
inline J request(const char *type, const J &payload, const std::string &token = "") {
    J j = J::obj({{"request", true}, {"type", type}, {"payload", payload}});
    if (!token.empty()) j.set("token", token);
    return j;
}
inline J r_connect(const std::string &db, const J &mapping = J()) {
    J p = J::obj({{"db_filename", db}});
    if (mapping.t == J::Obj) p.set("path-mapping", mapping);
    return request("connection", p);
}
inline J r_bp(const char *action, const std::string &fn, uint64_t line, uint64_t col = 0,
              const std::string &cond = "") {
    J p = J::obj({{"action", action}, {"filename", fn}, {"line_num", line}});
    if (col) p.set("column_num", col);
    if (!cond.empty()) p.set("condition", cond);
    return request("breakpoint", p);
}
inline J r_bpid(const char *action, uint64_t id, const std::string &cond = "") {
    J p = J::obj({{"action", action}, {"id", id}});
    if (!cond.empty()) p.set("condition", cond);
    return request("breakpoint-id", p);
}
inline J r_cmd(const char *c) { return request("command", J::obj({{"command", c}})); }
inline J r_info(const char *c) { return request("debugger-info", J::obj({{"command", c}})); }
}  // namespace world
