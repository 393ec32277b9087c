// C04: the inserted breakpoint set equals what the clients asked for.
// Every sequence of add/remove requests up to the bound, at the start, between edges and while
// paused at a statement; after every request the breakpoint information is compared with the set
// the accepted requests describe, and the edges that follow pause exactly there.
// build: plain
#include "model.hh"
using namespace model;

// module dut { 5:1 x; 5:9 if (a) y; 6 z }, children as in kit1 (child.py 10 if (p) q; 11 r).
// The signal "only" exists in c0 of the first copy.
static design::Kit kit2(int copies) {
    using namespace design;
    Kit k;
    k.copies = copies;
    J top_scope = J::arr({J::obj({{"type", "block"},
                                  {"filename", "dut.py"},
                                  {"scope", J::arr({assign("x", "x", 5, 1), assign("y", "y", 5, 9, "a"),
                                                    assign("z", "z", 6)})}})});
    J dut = J::obj({{"type", "module"}, {"name", "dut"}, {"scope", top_scope},
                    {"variables", J::arr({var("a", "a")})},
                    {"instances", J::arr({J::obj({{"name", "c0"}, {"module", "child"}}),
                                          J::obj({{"name", "c1"}, {"module", "child"}})})}});
    J child = J::obj({{"type", "module"}, {"name", "child"},
                      {"scope", J::arr({J::obj({{"type", "block"},
                                                {"filename", "child.py"},
                                                {"scope", J::arr({assign("q", "q", 10, 0, "p"),
                                                                  assign("r", "r", 11)})}})})},
                      {"variables", J::arr({var("p", "p")})},
                      {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}, {"generator", "check"}});
    auto add = [&](const char *inst, const char *f, int line, int col, std::vector<Lit> c, const char *t) {
        Stmt s;
        s.inst = inst;
        s.file = f;
        s.line = (uint32_t)line;
        s.col = (uint32_t)col;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut", "dut.py", 5, 1, {}, "x");
    add("dut", "dut.py", 5, 9, {{"a", true}}, "y");
    add("dut", "dut.py", 6, 0, {}, "z");
    for (auto *i : {"dut.c0", "dut.c1"}) {
        add(i, "child.py", 10, 0, {{"p", true}}, "q");
        add(i, "child.py", 11, 0, {}, "r");
    }
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = write_table(k.table);
    number(k);
    return k;
}

struct Op {
    bool add;
    // by location
    std::string file;
    uint32_t line = 0, col = 0;
    // or by id: index of the statement, -2: an id that does not exist
    int stmt = -1;
    UCond cond = {};
    bool bad = false;  // malformed or not resolvable anywhere
};
static std::vector<Op> ops(const design::Kit &k) {
    auto idx = [&](const char *inst, uint32_t line, uint32_t col) {
        for (size_t i = 0; i < k.stmts.size(); i++)
            if (k.stmts[i].inst == inst && k.stmts[i].line == line && k.stmts[i].col == col) return (int)i;
        mc::fail("no such statement");
    };
    int y = idx("dut", 5, 9), q1 = idx("dut.c1", 10, 0), q0 = idx("dut.c0", 10, 0);
    std::vector<Op> r;
    auto loc = [&](bool add, const char *f, uint32_t l, uint32_t c = 0, UCond u = {}, bool bad = false) {
        r.push_back({add, f, l, c, -1, u, bad});
    };
    auto id = [&](bool add, int s, UCond u = {}, bool bad = false) { r.push_back({add, "", 0, 0, s, u, bad}); };
    auto only = UCond{"only", {{{"only", true}}}};
    loc(true, "dut.py", 5);
    loc(true, "dut.py", 5, 1, uc_lit("b"));
    loc(true, "dut.py", 5, 9, uc_or("b", "z"));
    loc(true, "child.py", 10, 0, uc_lit("r"));
    loc(true, "child.py", 10);
    loc(true, "child.py", 10, 0, only);
    loc(true, "child.py", 11, 0, uc_lit("p", false));
    id(true, y);
    id(true, q1, uc_lit("r", false));
    id(true, q0, only);
    loc(false, "dut.py", 5);
    loc(false, "dut.py", 5, 9);
    loc(false, "child.py", 10);
    id(false, y);
    id(false, q1);
    // these change nothing
    loc(true, "dut.py", 7, 0, {}, true);
    loc(true, "dut.py", 5, 3, {}, true);
    loc(true, "nofile.py", 5, 0, {}, true);
    loc(true, "dut.py", 5, 0, {"b &&", {}}, true);
    loc(true, "child.py", 10, 0, {"nosuch", {}}, true);
    loc(true, "dut.py", 5, 0, {"b) || (b", {}}, true);
    id(true, -2, {}, true);
    id(true, q1, only, true);
    id(true, y, {"b b", {}}, true);
    loc(false, "nofile.py", 5);
    loc(false, "dut.py", 6);
    loc(false, "dut.py", 5, 3);
    id(false, -2);
    return r;
}
static const int effective = 15;  // the first ones change the set

static void compare(World &w, const design::Kit &kit, const Ref &ref) {
    auto evs = w.send(1, world::r_info("breakpoints"));
    if (status(evs) != "success") mc::fail("breakpoint information is not available");
    std::multiset<std::string> got, want;
    std::string order;
    for (auto &b : evs.back().msg["payload"]["breakpoints"].a)
        got.insert(std::to_string(b["id"].u()) + " " + b["filename"].str() + ":" + std::to_string(b["line_num"].u()) +
                   ":" + std::to_string(b["column_num"].u()) + " " + std::to_string(b["type"].u()));
    for (auto &e : ref.bps) {
        auto &s = *kit.by_id(e.id);
        want.insert(std::to_string(e.id) + " " + s.file + ":" + std::to_string(s.line) + ":" + std::to_string(s.col) + " 1");
    }
    if (got != want) {
        std::string g, x;
        for (auto &s : got) g += s + "; ";
        for (auto &s : want) x += s + "; ";
        mc::fail("inserted breakpoints are {" + g + "}, the requests describe {" + x + "}");
    }
    mc::validated();
    std::string h;
    for (auto &s : want) h += s + ";";
    for (auto &e : ref.bps) h += e.cond.text + ",";
    mc::state(mc::hash(h));
}
static void perform(World &w, const design::Kit &kit, Ref &ref, const Op &o) {
    J req = o.stmt == -1 ? world::r_bp(o.add ? "add" : "remove", o.file, o.line, o.col, o.cond.text)
                         : world::r_bpid(o.add ? "add" : "remove", o.stmt == -2 ? 4242 : kit.stmts[(size_t)o.stmt].id, o.cond.text);
    must(w, req, o.bad ? "error" : "success");
    if (!o.bad)
        for (size_t i = 0; i < kit.stmts.size(); i++) {
            auto &s = kit.stmts[i];
            bool m = o.stmt == -1 ? s.file == o.file && s.line == o.line && (!o.col || s.col == o.col) : (int)i == o.stmt;
            if (!m) continue;
            if (o.add)
                ref.insert(s, o.cond, [&](int c) { return o.cond.text != "only" || (c == 0 && s.inst == "dut.c0"); });
            else
                ref.erase(s);
        }
    compare(w, kit, ref);
}

// top: copies x when (before the first edge, between edges, paused at 5:1 / at child.py 10) x first op
static size_t tops() { return 2 * 4 * 28; }
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    int when = (int)(top >> 1) & 3;
    int first = (int)(top >> 3);
    auto kit = kit2(copies);
    World w;
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_signal("tb.clk", 1);
    for (auto &t : kit.tops) {
        v.add_module("dut", t);
        for (auto *s : {"clk", "a", "b", "x", "y", "z"}) v.add_signal(t + "." + s, s[0] == 'c' ? 1 : 8);
        for (auto *c : {".c0", ".c1"}) {
            v.add_module("child", t + c);
            for (auto *s : {"clk", "p", "q", "r"}) v.add_signal(t + c + "." + s, s[0] == 'c' ? 1 : 8);
        }
    }
    v.add_signal("tb.d0.c0.only", 8);
    w.cfg.clk = kit.tops[0] + ".clk";
    bring_up(w, kit);
    Ref ref(w, kit);
    auto all = ops(kit);
    // the values of the edges: copy d1 is the other way round
    auto vals = [&](int bits) {
        Vals r;
        int n = 0;
        for (size_t t = 0; t < kit.tops.size(); t++) {
            for (auto *s : {".a", ".b", ".c0.p", ".c1.p", ".c0.r", ".c1.r"})
                r[kit.tops[t] + s] = ((bits >> (n++ % 6)) & 1) ^ (t && (n & 1));
            r[kit.tops[t] + ".z"] = bits & 1;
        }
        r["tb.d0.c0.only"] = bits >> 2 & 1;
        return r;
    };
    static const int pat[] = {0x2f, 0x1d, 0x0e, 0x3f};
    if (when >= 1) ref.go();
    bool p = false;
    if (when == 2) {
        must(w, world::r_bp("add", "dut.py", 5, 1));
        ref.insert(*ref.at("dut.py", 5)[0], {});
        p = ref.edge(vals(pat[3]));
    } else if (when == 3) {
        must(w, world::r_bp("add", "child.py", 10));
        for (auto *s : ref.at("child.py", 10)) ref.insert(*s, {});
        p = ref.edge(vals(pat[3]));
    }
    if (when >= 2 && !p) mc::fail("no pause to start from");
    int depth = mc::thorough() ? 4 : 3;
    uint64_t h = (uint64_t)first;
    perform(w, kit, ref, all[(size_t)first]);
    int quiet = first >= effective;
    for (int d = 1; d < depth; d++) {
        // the requests that change nothing: at most one per sequence
        int o = mc::choose(quiet ? effective : (int)all.size());
        quiet += o >= effective;
        perform(w, kit, ref, all[(size_t)o]);
        h = h * 31 + (uint64_t)o;
    }
    mc::evaluation();
    while (p) p = ref.resume(Cont);
    if (when == 0) ref.go();
    for (int e = 0; e < 3; e++) {
        p = ref.edge(vals(pat[e]));
        while (p) p = ref.resume(Cont);
    }
    mc::nontrivial(mc::hash(std::to_string(top) + ":" + std::to_string(h)));
    mc::counter("pauses", ref.pauses);
    mc::counter("requests", (uint64_t)depth);
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C04";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
