// C29: every combination of assertion calls (known and unknown locations, copies and arguments)
// with user breakpoints around clock edges with every value of the enable conditions.
// build: plain
#include "model.hh"
using namespace model;

enum Kind {
    None, Dut1, Dut3, Last2, LastC0, C1, C0Col, Extra, NKNOWN,
    BadLine = NKNOWN, BadFile, Outside, Above, NoFile, NoLine, NoArgs, NoCall, BadCol, Other, NKIND
};
static const char *NAME[] = {"none", "dut.py:1 in copy 0", "dut.py:3 in copy 0", "dut.py:2 in the last copy", "child.py:10 in c0 of the last copy", "child.py:10 in c1 of copy 0", "child.py:11 in c0 of copy 0 with column 0", "dut.py:4 in copy 0 with further arguments", "unknown line", "unknown file", "outside of the design", "above the design", "no file", "no line", "no arguments", "no call handle", "unknown column", "the statement of another instance"};

struct Bench {
    World w;
    Kit k;
    explicit Bench(const world::Cfg &c, int copies) : w(c), k(design::kit1(copies)) {
        design::bench1(w, k);
        w.vpi->add_module("other", "tb.other");
    }
    sim::Obj *arg(int const_type, const std::string &s, int64_t i) {
        auto *o = w.vpi->mk(sim::Obj::Arg);
        o->vpi_type = vpiConstant;
        o->const_type = const_type;
        o->sval = s;
        o->ival = i;
        return o;
    }
    // the statement and copy an assertion of this kind stands at, if any
    std::optional<std::pair<uint32_t, int>> where(int kind) {
        auto id = [&](const char *inst, const char *f, uint32_t line, int copy) {
            for (auto &s : k.stmts)
                if (s.inst == inst && s.file == f && s.line == line) return std::make_pair(s.id, copy);
            mc::fail("harness: no such statement");
        };
        int last = k.copies - 1;
        switch (kind) {
            case Dut1: return id("dut", "dut.py", 1, 0);
            case Dut3: return id("dut", "dut.py", 3, 0);
            case Last2: return id("dut", "dut.py", 2, last);
            case LastC0: return id("dut.c0", "child.py", 10, last);
            case C1: return id("dut.c1", "child.py", 10, 0);
            case C0Col: return id("dut.c0", "child.py", 11, 0);
            case Extra: return id("dut", "dut.py", 4, 0);
            default: return std::nullopt;
        }
    }
    // the call itself, in the simulator's thread
    void call(int kind) {
        auto &v = *w.vpi;
        v.tf_call = nullptr;
        if (kind != NoCall) {
            auto *c = v.mk(sim::Obj::TfCall);
            v.tf_call = c;
            std::string inst, file;
            int64_t line = 0;
            int last = k.copies - 1;
            switch (kind) {
                case Dut1: inst = k.tops[0], file = "dut.py", line = 1; break;
                case Dut3: inst = k.tops[0], file = "dut.py", line = 3; break;
                case Last2: inst = k.tops[last], file = "dut.py", line = 2; break;
                case LastC0: inst = k.tops[last] + ".c0", file = "child.py", line = 10; break;
                case C1: inst = k.tops[0] + ".c1", file = "child.py", line = 10; break;
                case C0Col: inst = k.tops[0] + ".c0", file = "child.py", line = 11; break;
                case Extra: inst = k.tops[0], file = "dut.py", line = 4; break;
                case BadLine: inst = k.tops[0], file = "dut.py", line = 99; break;
                case BadFile: inst = k.tops[0], file = "none.py", line = 1; break;
                case Outside: inst = "tb.other", file = "dut.py", line = 1; break;
                case Above: inst = "tb", file = "dut.py", line = 1; break;
                case NoFile: inst = k.tops[0], line = 1; break;
                case NoLine: inst = k.tops[0], file = "dut.py"; break;
                case BadCol: inst = k.tops[0], file = "dut.py", line = 1; break;
                case Other: inst = k.tops[0], file = "child.py", line = 10; break;
                default: break;
            }
            if (!inst.empty()) {
                auto *m = v.find(inst);
                if (!m) mc::fail("harness: no instance " + inst);
                c->children.push_back(m);
            }
            if (kind == Extra) {
                c->children.push_back(arg(vpiRealConst, "", 3));
                c->children.push_back(v.find(k.tops[0] + ".a"));
            }
            if (!file.empty()) c->children.push_back(arg(vpiStringConst, file, 0));
            if (line) c->children.push_back(arg(kind == Dut3 ? vpiDecConst : vpiIntConst, "", line));
            if (kind == C0Col) c->children.push_back(arg(vpiIntConst, "", 0));
            if (kind == BadCol) c->children.push_back(arg(vpiIntConst, "", 5));
        }
        v.systf_data.calltf(v.systf_data.user_data);
    }
};
// user breakpoints: none, at the assertions without and with a condition, somewhere else
struct User {
    const char *file;
    uint32_t line;
    const char *cond;
};
static const User USER[] = {{nullptr, 0, nullptr}, {"dut.py", 1, nullptr}, {"child.py", 10, "!p"}, {"dut.py", 3, "b"}, {"child.py", 11, "p"}};
static const int NUSER = 5;

static void body(size_t top) {
    int copies = 1 + (int)(top % 2);
    top /= 2;
    int user = (int)(top % NUSER);
    top /= NUSER;
    int first = (int)top;  // the first call
    Bench b({}, copies);
    auto &w = b.w;
    auto &k = b.k;
    w.create();
    // what sim.cc registers
    w.dbg->rtl_clients()[0]->register_tf("$hgdb_assert_fail", [](char *p) -> int {
        reinterpret_cast<hgdb::Debugger *>(p)->handle_assert();
        return 0;
    }, w.dbg.get());
    w.start();
    w.open(1);
    must(w, world::r_connect(k.path));
    Ref ref(w, k);
    auto conds = [&](const User &u) {
        if (!u.cond) return uc_true();
        std::string c = u.cond;
        return c[0] == '!' ? uc_lit(c.substr(1), false) : uc_lit(c);
    };
    auto add = [&](const User &u) {
        must(w, world::r_bp("add", u.file, u.line, 0, u.cond ? u.cond : ""));
        for (auto *s : ref.at(u.file, u.line)) ref.insert(*s, conds(u));
    };
    if (USER[user].file) add(USER[user]);
    ref.go();
    mc::snapshot();
    std::vector<int> calls;
    w.on_sim = [&](char c) {
        if (c != 'B') return;
        for (auto kd : calls) b.call(kd);
    };
    const int rounds = mc::thorough() ? 3 : 2;
    bool nontrivial = false;
    bool step = false;  // the way the last pause was left
    for (int r = 0; r <= rounds; r++) {
        calls.clear();
        // stepping to the end of the edge after the first pause, and a bit further
        bool stepping = r == 0 ? mc::choose(2) == 1 : mc::thorough() && r == 1 && mc::choose(2) == 1;
        if (r < rounds) {
            calls.push_back(r == 0 ? first : (int)mc::choose(NKIND));
            if (r == 0) {
                // a second one, also the same again
                static const int SECOND[] = {None, -1, Dut1, LastC0, C1, BadLine};
                int s = SECOND[mc::choose(6)];
                calls.push_back(s < 0 ? first : s);
            }
        }
        calls.erase(std::remove(calls.begin(), calls.end(), (int)None), calls.end());
        for (auto c : calls) mc::trace(std::string("assertion: ") + NAME[c]);
        int bits = r == rounds ? 7 : r == 0 ? (int)mc::choose(2) * 7 : (int)mc::choose(2) * 2;
        std::map<std::string, uint64_t> v;
        for (int c = 0; c < copies; c++) {
            auto t = k.tops[c];
            v[t + ".a"] = (uint64_t)(bits & 1) * (5 + c);
            v[t + ".b"] = (uint64_t)(bits >> 1 & 1) * (3 + c);
            v[t + ".c0.p"] = (uint64_t)(bits >> 2 & 1) * (9 + c);
            v[t + ".c1.p"] = (uint64_t)(bits & 1) * (11 + c);
        }
        using Key = std::pair<uint32_t, int>;
        std::set<Key> asserts, normal, either;
        for (auto c : calls)
            if (auto x = b.where(c))
                asserts.insert(*x);
            else if (c == Other)
                // in the copy if at all
                for (auto *s : ref.at("child.py", 10)) either.insert({s->id, 0});
        // a pause before the edge is not allowed, and the evaluation is in order
        std::map<Key, int> got;
        std::vector<Ev> evs = w.edge(v);
        auto vals = w.vpi->values();
        for (auto &e : ref.bps)
            if (ref.hits(e, vals)) normal.insert({e.id, e.copy});
        uint32_t at = 0, last_step = 0;
        bool stepped = false;
        int guard = 0;
        std::set<Key> visited;
        while (true) {
            auto hs = Ref::hits_in(evs);
            if (hs.size() != (w.paused() ? 1u : 0u)) mc::fail("hits and pauses do not match");
            if (hs.empty()) break;
            auto &h = hs[0];
            mc::trace("  -> " + design::show(h));
            if (h.time != w.vpi->time) mc::fail("wrong time: " + design::show(h));
            uint32_t lo = 0xffffffff;
            for (auto &sc : h.scopes) {
                auto *s = k.by_id(sc.bp_id);
                int cp = ref.copy_of(sc.ns_id);
                if (!s || cp < 0) mc::fail("unknown breakpoint in " + design::show(h));
                if (s->line != h.line || s->file != h.file) mc::fail("location does not match: " + design::show(h));
                auto full = k.full(s->inst, cp);
                if (sc.inst_name != full) mc::fail("names instance " + sc.inst_name + " instead of " + full);
                std::string var = s->inst == "dut" ? "a" : "p";
                if (!sc.gen.count(var) || sc.gen.at(var) != std::to_string(vals.at(full + "." + var)))
                    mc::fail("the value of " + var + " in " + full + " is " + (sc.gen.count(var) ? sc.gen.at(var) : "missing") + ", expected " + std::to_string(vals.at(full + "." + var)));
                if (step)
                    visited.insert({s->id, cp});
                else
                    got[{s->id, cp}]++;
                lo = std::min(lo, s->order);
            }
            if (lo < at) mc::fail("goes back to " + design::show(h));
            at = lo;
            if (step) stepped = true, last_step = lo;
            if (++guard > 40) mc::fail("stops again and again");
            mc::validated();
            step = stepping;
            evs = w.send(1, world::r_cmd(step ? "step_over" : "continue"));
        }
        for (auto &g : got) {
            int want = (int)asserts.count(g.first) + (int)normal.count(g.first) + (int)either.count(g.first);
            if (g.second > want) mc::fail("breakpoint " + std::to_string(g.first.first) + " of copy " + std::to_string(g.first.second) + " is reported " + std::to_string(g.second) + " times, expected " + std::to_string(want));
        }
        // stepping goes past statements that are not enabled, and to every one that is
        auto passed = [&](const Key &k2) { return visited.count(k2) || (stepped && k.by_id(k2.first)->order <= last_step) || (step && stepping); };
        for (auto &a : asserts)
            if (!got.count(a) && !passed(a)) mc::fail("no pause at the failing assertion at " + k.by_id(a.first)->loc() + " in copy " + std::to_string(a.second));
        for (auto &n : normal)
            if (!got.count(n) && !passed(n)) mc::fail("no pause at the breakpoint at " + k.by_id(n.first)->loc() + " in copy " + std::to_string(n.second));
        nontrivial = nontrivial || !asserts.empty();
        std::string h;
        for (auto &g : got) h += std::to_string(g.first.first) + "/" + std::to_string(g.first.second) + "*" + std::to_string(g.second) + " ";
        mc::state(mc::hash(h + std::to_string(user) + std::to_string(r)));
        // the user's breakpoints are as they were
        auto info = w.send(1, world::r_info("breakpoints"));
        std::set<uint32_t> listed, own;
        for (auto &x : info[0].msg["payload"]["breakpoints"].a)
            if (x["type"].u() == 1) listed.insert((uint32_t)x["id"].u());
        for (auto &e : ref.bps) own.insert(e.id);
        if (listed != own) mc::fail("the breakpoints of the user changed");
        // taken away while an assertion is not yet forgotten
        if (r == 0 && USER[user].file && mc::choose(2)) {
            must(w, world::r_bp("remove", USER[user].file, USER[user].line));
            for (auto *s : ref.at(USER[user].file, USER[user].line)) ref.erase(*s);
        }
    }
    // let go: nothing pauses any more
    must(w, world::request("option-change", J::obj({{"detach_after_disconnect", true}})));
    w.close(1);
    calls = {Dut1, C1};
    w.edge({{k.tops[0] + ".a", 1}});
    if (w.paused()) mc::fail("an assertion pauses after the debugger was detached");
    if (nontrivial) mc::nontrivial(mc::hash(std::to_string(top) + std::to_string(user) + std::to_string(ref.pauses)));
    mc::evaluation();
    mc::done();
}

// without a symbol table
static void early() {
    world::Cfg c;
    c.args = {"sim", "+DEBUG_DISABLE_BLOCKING"};
    Bench b(c, 2);
    auto &w = b.w;
    auto &k = b.k;
    w.create();
    w.dbg->rtl_clients()[0]->register_tf("$hgdb_assert_fail", [](char *p) -> int {
        reinterpret_cast<hgdb::Debugger *>(p)->handle_assert();
        return 0;
    }, w.dbg.get());
    w.start();
    int kind = 1 + (int)mc::choose(NKIND - 1);
    bool on = true;
    w.on_sim = [&](char ch) {
        if (ch == 'B' && on) b.call(kind);
    };
    w.edge({});
    if (w.paused()) mc::fail("an assertion pauses without a symbol table");
    w.open(1);
    w.edge({});
    if (w.paused()) mc::fail("an assertion pauses without a symbol table");
    must(w, world::r_connect(k.path));
    on = false;
    w.edge({});
    if (w.paused()) mc::fail("an assertion from before the symbol table pauses");
    must(w, world::r_bp("add", "dut.py", 1));
    if (Ref::hits_in(w.edge({})).size() != 1 || !w.paused()) mc::fail("no pause at the breakpoint");
    mc::evaluation();
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C29";
    c.tops = [] { return (size_t)(2 * NUSER * NKIND + 1); };
    c.body = [](size_t top) { top < 2 * NUSER * NKIND ? body(top) : early(); };
    return mc::main_(argc, argv, c);
}
