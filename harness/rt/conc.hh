// The debugger under every interleaving of the simulation thread and the server thread: a log of
// what happens, clients that act by themselves, and the rules for pauses and resumes.
#pragma once
#include "model.hh"

namespace conc {
using design::Kit;
using model::Ref;
using model::Vals;
using world::Ev;
using world::J;
using world::World;

struct Conc {
    World &w;
    const Kit &kit;
    // S: run() returned, B/E: begin/end of a clock edge, H: hit sent, D/R: handling of an event
    // from the network begins/ends
    struct L {
        char k;
        int op = -1;
        design::Hit hit;
    };
    struct Op {
        std::string what;
        bool resumes = false;  // lets one pause go
        bool frees = false;    // after this nothing pauses any more
        int d = -1, r = -1;
        int used = 0;
        std::vector<Ev> replies;  // messages to its sender that are not events
        uint64_t conn = 0;
        bool request = false;
    };
    std::vector<L> log;
    std::vector<Op> ops;
    int open_pause = -1;  // log index at which the current pause begins
    bool posedge = false;
    bool blocking = true;
    uint64_t progress = 0;
    bool stop_clients = false;
    int delivering = -1;
    uint64_t pauses = 0;

    Conc(World &w, const Kit &k) : w(w), kit(k) {
        w.on_sim = [this](char c) { sim(c); };
        w.on_ev = [this](const Ev &e) { event(e); };
    }
    ~Conc() {
        stop_clients = true;
        if (mcrt::active()) mcrt::settle();
        w.on_sim = nullptr;
        w.on_ev = nullptr;
    }
    Conc(const Conc &) = delete;
    void begin_log() {
        log.push_back({'-'});
        if (!w.started) open_pause = 0;
    }
    void sim(char c) {
        if (log.empty()) return;
        progress++;
        if (c == 'S' || c == 'E') close_pause(c);
        log.push_back({c});
        if (c == 'B' && posedge) open_pause = (int)log.size() - 1;
    }
    void event(const Ev &e) {
        if (log.empty()) return;
        if (design::is_hit(e.msg)) {
            // one message per client; the first one counts
            auto h = design::parse_hit(e.msg);
            if (e.fiber != w.sim_fiber) mc::fail("a hit is not sent by the simulation thread");
            if (same_pause_ && !told_.count(e.conn)) {
                if (show(log[open_pause].hit) != show(h)) mc::fail("clients are told about different hits");
                told_.insert(e.conn);
                return;
            }
            for (auto &o : ops)
                if (o.frees && o.r >= 0) mc::fail("a pause after " + o.what + " was done: " + show(h));
            close_pause('H');
            progress++;
            log.push_back({'H', -1, h});
            same_pause_ = true;
            told_ = {e.conn};
            open_pause = (int)log.size() - 1;
            mc::trace("    hit " + show(h));
            return;
        }
        if (e.msg["type"].str() == "monitor") return;
        if (delivering < 0) mc::fail("a message to nobody's request: " + e.text);
        auto &o = ops[delivering];
        if (e.conn != o.conn) mc::fail("the reply to a request of client " + std::to_string(o.conn) + " goes to " + std::to_string(e.conn));
        o.replies.push_back(e);
    }
    // the simulation goes on: somebody must have told it to
    void close_pause(char by) {
        same_pause_ = false;
        if (open_pause < 0) return;
        int p = open_pause;
        open_pause = -1;
        pauses++;
        Op *best = nullptr;
        for (auto &o : ops) {
            if (o.d < 0) continue;
            if (o.frees) {
                best = &o;
                break;
            }
            if (o.r >= 0 && o.r < p) continue;
            if (!o.resumes || o.used) continue;
            if (!best || (o.r >= 0 && (best->r < 0 || o.r < best->r))) best = &o;
        }
        if (!best) mc::fail(std::string("the simulation goes on (") + by + ") although nothing told it to since the pause");
        if (!best->frees) best->used++;
    }
    // an event from the network, handled whenever the server thread gets to it
    int queue(const std::string &what, std::function<void()> f, bool resumes = false, bool frees = false) {
        int id = (int)ops.size();
        Op o;
        o.what = what;
        o.resumes = resumes;
        o.frees = frees;
        ops.push_back(o);
        w.server()->queue([this, id, f] {
            delivering = id;
            log.push_back({'D', id});
            ops[id].d = (int)log.size() - 1;
            mc::trace("    begin " + ops[id].what);
            f();
            log.push_back({'R', id});
            ops[id].r = (int)log.size() - 1;
            mc::trace("    done " + ops[id].what);
            delivering = -1;
        });
        return id;
    }
    int message(uint64_t c, const J &req, bool resumes = false, bool frees = false) {
        auto text = req.dump();
        int id = queue(text, [this, c, text] { w.server()->deliver(c, text); }, resumes, frees);
        ops[id].conn = c;
        ops[id].request = true;
        return id;
    }
    int command(uint64_t c, const char *cmd) {
        return message(c, world::r_cmd(cmd), std::string(cmd) != "stop", std::string(cmd) == "stop");
    }
    // a client that resumes the simulation whenever it sees it stopped
    void resumer(uint64_t c, const char *cmd = "continue") {
        mcrt::spawn(
            [this, c, cmd] {
                uint64_t last_progress = ~0ull;
                int last = -1;
                while (true) {
                    mcrt::block_until([this, &last] { return stop_clients || (sim_waits() && (last < 0 || ops[last].r >= 0)); }, "client");
                    if (stop_clients) return;
                    if (last >= 0 && last_progress == progress && ops[last].resumes)
                        mc::fail("the simulation stays paused after " + ops[last].what);
                    last_progress = progress;
                    last = command(c, cmd);
                }
            },
            "client");
    }
    bool sim_waits() { return mcrt::blocked_on_condition(w.sim_fiber); }
    // all interleavings with at most so many preemptions
    void explore(int preemptions) {
        mc::snapshot();
        mcrt::set_mode(mcrt::Mode::Explore, preemptions);
        mcrt::join_all();
        mcrt::set_mode(mcrt::Mode::Seq);
        stop_clients = true;
        mc::evaluation();
        mc::validated();
        mc::transition(log.size());
        std::string h;
        for (auto &l : log) h += l.k + std::to_string(l.op);
        mc::state(mc::hash(h));
        mc::nontrivial(mc::hash(h));
    }
    void check_replies() {
        for (auto &o : ops) {
            if (!o.request) continue;
            if (o.r < 0) mc::fail("never handled: " + o.what);
            if (o.replies.size() != 1) mc::fail(std::to_string(o.replies.size()) + " replies to " + o.what);
        }
    }
    void check_idle() {
        if (!w.idle() || !w.script.empty()) mc::fail("the simulation does not go on: " + mcrt::describe());
    }
    // what was reported in each finished edge: (id, copy) -> times
    std::vector<std::map<std::pair<uint32_t, int>, int>> edges(const Ref &ref) {
        std::vector<std::map<std::pair<uint32_t, int>, int>> r;
        for (auto &l : log) {
            if (l.k == 'B') r.emplace_back();
            if (l.k == 'H') {
                if (r.empty()) mc::fail("a hit outside of a clock edge");
                for (auto &s : l.hit.scopes) r.back()[{s.bp_id, ref.copy_of(s.ns_id)}]++;
            }
        }
        return r;
    }
    // before the begin of that edge / at its end
    int edge_begin(int n) { return nth('B', n); }
    int edge_end(int n) { return nth('E', n); }

private:
    bool same_pause_ = false;
    std::set<uint64_t> told_;
    int nth(char k, int n) {
        for (size_t i = 0; i < log.size(); i++)
            if (log[i].k == k && n-- == 0) return (int)i;
        return 1 << 30;
    }
};
}  // namespace conc
