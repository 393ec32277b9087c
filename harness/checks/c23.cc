// C23: every history of successful and failed connections up to the bound, with breakpoint
// requests, monitors, edges of either design's clock and resumes in between: everything the
// debugger shows belongs to the last successful connection.
// build: plain
#include "model.hh"
using namespace model;

// a second design in the same bench: module blk { dut.py 1: s; dut.py 2: if (g) t; other.py 7: u }
static design::Kit kitb(int copies) {
    using namespace design;
    Kit k;
    k.copies = copies;
    auto blk = [](const char *f, const J &s) { return J::obj({{"type", "block"}, {"filename", f}, {"scope", s}}); };
    J m = J::obj({{"type", "module"}, {"name", "blk"},
                  {"scope", J::arr({blk("dut.py", J::arr({assign("s", "s", 1), assign("t", "t", 2, 0, "g")})),
                                    blk("other.py", J::arr({assign("u", "u", 7)}))})},
                  {"variables", J::arr()},
                  {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({m})}, {"top", "blk"}});
    auto add = [&](const char *f, int line, std::vector<Lit> c, const char *t) {
        Stmt s;
        s.inst = "blk";
        s.file = f;
        s.line = (uint32_t)line;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut.py", 1, {}, "s");
    add("dut.py", 2, {{"g", true}}, "t");
    add("other.py", 7, {}, "u");
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.e" + std::to_string(c));
    k.path = write_table(k.table, "tableb.json");
    number(k);
    return k;
}
enum OpK { ConnA, ConnB, ConnMissing, ConnBad, ConnDup, Add1, Add2, AddC, Rem1, Mon, EdgeA, EdgeB, Resume, NOPK };
static const char *NAME[] = {"connect A", "connect B", "connect missing", "connect bad", "connect cyclic", "add dut.py:1", "add dut.py:2", "add child.py:11", "remove dut.py:1", "monitor", "edge A", "edge B", "continue"};

struct Machine {
    World &w;
    design::Kit a, b;
    std::string bad, dup;
    int cur = -1;  // 0 A, 1 B
    std::unique_ptr<Ref> ref;
    bool unsure = false;  // connected while paused: the rest of this edge
    std::optional<std::pair<std::string, uint64_t>> mon;  // signal, id
    int e = 0;
    design::Kit &kit() { return cur == 0 ? a : b; }

    void fail_unless(bool ok, const std::string &s) {
        if (!ok) mc::fail(s);
    }
    void monitor_events(const std::vector<Ev> &evs, bool due) {
        std::multiset<std::string> got, want;
        for (auto &x : evs)
            if (x.conn == 1 && x.msg["type"].str() == "monitor")
                got.insert(std::to_string(x.msg["payload"]["track_id"].u()) + "=" + x.msg["payload"]["value"].str());
        if (mon && due) want.insert(std::to_string(mon->second) + "=" + std::to_string(w.vpi->get(mon->first)));
        if (got != want) mc::fail(std::to_string(got.size()) + " monitor events" + (got.empty() ? "" : " (" + *got.begin() + ")") + ", expected " + std::to_string(want.size()));
    }
    // everything that can be asked for
    void observe() {
        auto q = [&](const char *c) {
            auto evs = w.send(1, world::r_info(c));
            auto st = status(evs);
            fail_unless(!st.empty(), std::string("no reply to information request ") + c);
            return evs.back().msg;
        };
        auto bps = q("breakpoints"), files = q("filename"), des = q("design");
        // one value change callback on each clock of the current design's first copy
        std::multiset<std::string> cbs, wcb;
        for (auto &c : w.vpi->callbacks())
            if (c.rfind(std::to_string(cbValueChange) + ":", 0) == 0) cbs.insert(c.substr(c.find(':') + 1));
        if (cur >= 0) wcb.insert(kit().tops[0] + ".clk");
        if (cbs != wcb) {
            std::string s;
            for (auto &c : cbs) s += c + " ";
            mc::fail("clock callbacks on {" + s + "}, the connection's clock is " + (wcb.empty() ? "none" : *wcb.begin()));
        }
        if (cur < 0) {
            fail_unless(bps["status"].str() == "error" && files["status"].str() == "error", "breakpoints or file names without a symbol table");
        } else {
            std::multiset<std::string> got, want;
            for (auto &x : bps["payload"]["breakpoints"].a) got.insert(std::to_string(x["id"].u()) + x["filename"].str() + ":" + std::to_string(x["line_num"].u()));
            for (auto &x : ref->bps) want.insert(std::to_string(x.id) + kit().by_id(x.id)->loc());
            if (got != want) mc::fail(std::to_string(got.size()) + " breakpoints inserted" + (got.empty() ? "" : " (" + *got.begin() + ")") + ", " + std::to_string(want.size()) + " were requested on this connection");
            std::set<std::string> gf, wf;
            for (auto &x : files["payload"]["filenames"].a) gf.insert(x.str());
            for (auto &s : kit().stmts) wf.insert(s.file);
            if (gf != wf) mc::fail("file names of another symbol table: " + files.dump());
            std::map<std::string, uint64_t> gd, wd;
            auto &d = des["payload"]["design"];
            for (auto &p : d.o)
                for (auto &x : p.second.o) gd[p.first + " " + x.first] = x.second.u();
            for (size_t i = 0; i < kit().tops.size(); i++) wd[std::string(cur ? "blk " : "dut ") + kit().tops[i]] = i;
            if (gd != wd) mc::fail("design information is " + des.dump());
        }
        std::string h = std::to_string(cur) + (w.paused() ? "p" : "r") + (w.started ? "s" : "-") + (mon ? "m" : "");
        if (ref)
            for (auto &x : ref->bps) h += std::to_string(x.id) + ",";
        mc::state(mc::hash(h));
        mc::validated();
    }
    void connect(const std::string &path, int to) {
        bool was_paused = w.paused();
        auto evs = w.send(1, world::r_connect(path));
        auto st = status(evs);
        fail_unless(st == (to >= 0 ? "success" : "error"), "connection answered with '" + st + "'");
        fail_unless(was_paused == w.paused(), "a connection request lets the simulation go");
        for (auto &x : evs)
            if (design::is_hit(x.msg)) mc::fail("a hit because of a connection");
        if (to < 0) return;
        cur = to;
        ref = std::make_unique<Ref>(w, kit());
        mon.reset();
        unsure = was_paused && w.started;
        mc::nontrivial(mc::hash("c" + std::to_string(to) + std::to_string(was_paused) + std::to_string(w.edges) + std::to_string(w.started)));
    }
    void after(const std::vector<Ev> &evs, bool first) {
        // an edge or a resume
        if (cur < 0) {
            fail_unless(!w.paused() && Ref::hits_in(evs).empty(), "a pause without a symbol table");
            return;
        }
        if (unsure) {
            auto hs = Ref::hits_in(evs);
            fail_unless(hs.size() == (w.paused() ? 1u : 0u), "pause and hits do not match");
            auto v = w.vpi->values();
            for (auto &h : hs) {
                ref->check_hit_basic(h);
                for (auto &sc : h.scopes) {
                    bool ok = false;
                    for (auto &x : ref->bps) ok = ok || (x.id == sc.bp_id && x.copy == ref->copy_of(sc.ns_id) && ref->hits(x, v));
                    fail_unless(ok, "a pause at what is not a breakpoint of this connection");
                }
            }
            if (!w.paused()) unsure = false;
            return;
        }
        (void)first;
        ref->mode = Cont;
        ref->check(evs);
        monitor_events(evs, !w.paused());
    }
    void perform(int op) {
        mc::trace(NAME[op]);
        auto add = [&](const char *f, uint32_t line, bool rem) {
            auto evs = w.send(1, world::r_bp(rem ? "remove" : "add", f, line));
            auto st = status(evs);
            std::vector<const Stmt *> at;
            if (ref) at = ref->at(f, line);
            if (cur < 0 || (at.empty() && !rem)) {
                fail_unless(st == "error", std::string("breakpoint at ") + f + " is not one of this symbol table");
                return;
            }
            fail_unless(st == "success" || (rem && at.empty()), "breakpoint request answered with '" + st + "'");
            for (auto *s : at) rem ? ref->erase(*s) : ref->insert(*s, {});
        };
        switch (op) {
            case ConnA: return connect(a.path, 0);
            case ConnB: return connect(b.path, 1);
            case ConnMissing: return connect(a.path + ".not", -1);
            case ConnBad: return connect(bad, -1);
            case ConnDup: return connect(dup, -1);
            case Add1: return add("dut.py", 1, false);
            case Add2: return add("dut.py", 2, false);
            case AddC: return add("child.py", 11, false);
            case Rem1: return add("dut.py", 1, true);
            case Mon: {
                if (mon || cur < 0) return;
                auto sig = kit().tops[0] + (cur ? ".s" : ".x");
                J p = J::obj({{"action_type", "add"}, {"monitor_type", "clock_edge"}, {"var_name", sig}, {"namespace_id", 0}});
                auto evs = w.send(1, world::request("monitor", p));
                fail_unless(status(evs) == "success", "monitor rejected");
                mon = {sig, evs.back().msg["payload"]["track_id"].u()};
                return;
            }
            case EdgeA:
            case EdgeB: {
                if (!w.idle()) return;
                e++;
                Vals v;
                for (auto &t : a.tops) {
                    v[t + ".a"] = 1;
                    v[t + ".b"] = (uint64_t)e & 1;
                    v[t + ".x"] = (uint64_t)e + 3;
                }
                for (auto &t : b.tops) {
                    v[t + ".g"] = (uint64_t)e & 1;
                    v[t + ".s"] = (uint64_t)e + 50;
                }
                bool mine = cur == (op == EdgeA ? 0 : 1);
                if (ref) ref->new_edge();
                unsure = false;
                w.cfg.clk = op == EdgeA ? a.tops[0] + ".clk" : b.tops[0] + ".clk";
                auto evs = w.edge(v);
                if (mine) return after(evs, true);
                fail_unless(w.idle(), "a pause at a clock that is not the design's");
                for (auto &x : evs)
                    if (x.conn == 1) mc::fail("a message at a clock that is not the design's: " + x.text);
                return;
            }
            case Resume: {
                bool was = w.paused();
                bool start = !w.started;
                auto evs = w.send(1, world::r_cmd("continue"));
                fail_unless(!status(evs).empty() || was, "no reply to continue");
                if (start) {
                    fail_unless(w.idle(), "the simulation does not start");
                    return;
                }
                if (was) return after(evs, false);
                fail_unless(w.idle() && Ref::hits_in(evs).empty(), "continue without a pause has an effect");
                return;
            }
        }
    }
};
static size_t tops() { return 2 * 2 * 13 * 13; }
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool started = top >> 1 & 1;
    World w;
    Machine m{w, design::kit1(copies), kitb(copies), "", "", -1, nullptr, false, {}, 0};
    // does not follow the schema; two modules of one name
    m.bad = mc::scratch() + "/bad.json";
    m.dup = mc::scratch() + "/dup.json";
    {
        std::ofstream f(m.bad);
        f << R"({"table": [{"type": "module", "name": "dut"}], "top": "dut"})";
        J t = m.a.table;
        t.set("top", "nosuch");
        std::ofstream g(m.dup);
        g << t.dump();
    }
    design::bench1(w, m.a);
    for (auto &t : m.b.tops) {
        w.vpi->add_module("blk", t);
        w.vpi->add_signal(t + ".clk", 1);
        for (auto *s : {".s", ".t", ".u", ".g"}) w.vpi->add_signal(t + s, 8);
    }
    w.create();
    w.start();
    w.open(1);
    if (started) {
        m.perform(ConnA);
        m.perform(Add1);
        m.perform(Mon);
        m.perform(Resume);
        m.perform(EdgeA);
        m.observe();
    }
    m.perform((int)(top >> 2) % 13);
    m.observe();
    m.perform((int)(top >> 2) / 13);
    m.observe();
    int depth = mc::thorough() ? 5 : 4;
    for (int d = 2; d < depth; d++) {
        int op = mc::choose(NOPK);
        // without an effect here: covered by the shorter history
        if ((op == EdgeA || op == EdgeB) && !w.idle()) return;
        if (op == Mon && (m.mon || m.cur < 0)) return;
        if (!mc::thorough() && (op == ConnMissing || op == ConnDup)) return;
        m.perform(op);
        m.observe();
    }
    // and the edges of both clocks afterwards
    for (int i = 0; i < 10 && w.paused(); i++) m.perform(Resume);
    for (int k = 0; k < 2; k++)
        for (int op : {EdgeA, EdgeB}) {
            m.perform(op);
            for (int i = 0; i < 20 && w.paused(); i++) m.perform(Resume);
            if (w.paused()) mc::fail("pauses without end");
        }
    mc::evaluation();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C23";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
