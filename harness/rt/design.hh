// A small design used by the debugger checks: its symbol table, its test bench, and for every
// statement the enable condition as data, so that the expected behaviour does not come from hgdb.
#pragma once
#include <algorithm>
#include <set>

#include "symbol.hh"
#include "world.hh"

namespace design {
using mj::J;
using world::World;

struct Lit {  // signal of the instance is (not) zero
    std::string sig;
    bool pos = true;
};
struct Stmt {
    std::string inst;  // instance name in the symbol table, e.g. dut.c0
    std::string file;
    uint32_t line = 0, col = 0;
    std::vector<Lit> cond;
    std::string target;  // variable assigned
    // from the symbol table provider
    uint32_t id = 0, inst_id = 0, order = 0;
    std::string loc() const { return file + ":" + std::to_string(line); }
    std::string cond_key() const {
        std::string s;
        for (auto &l : cond) s += (l.pos ? "" : "!") + l.sig + "&";
        return s;
    }
};

struct Kit {
    J table;
    std::string path;
    std::vector<Stmt> stmts;  // in execution order
    int copies = 1;
    std::vector<std::string> tops;  // full names of the copies, e.g. tb.d0
    std::map<std::string, uint32_t> ns_of;  // top -> namespace id (from the design information request)

    const Stmt *by_id(uint32_t id) const {
        for (auto &s : stmts)
            if (s.id == id) return &s;
        return nullptr;
    }
    // full name of an instance in a copy
    std::string full(const std::string &inst, int copy) const {
        auto p = inst.find('.');
        return tops[copy] + (p == std::string::npos ? "" : inst.substr(p));
    }
};

inline J assign(const char *name, const char *value, int line, int col = 0, const char *cond = nullptr) {
    J j = J::obj({{"type", "assign"},
                  {"line", line},
                  {"variable", J::obj({{"name", name}, {"value", value}, {"rtl", true}})}});
    if (col) j.set("column", col);
    if (cond) j.set("condition", cond);
    return j;
}
inline J var(const char *name, const char *value, bool rtl = true) {
    return J::obj({{"name", name}, {"value", value}, {"rtl", rtl}});
}

inline std::string write_table(const J &t, const std::string &name = "table.json") {
    auto path = mc::scratch() + "/" + name;
    std::ofstream f(path);
    f << t.dump();
    return path;
}

// ids and execution order, as the symbol table provider hands them out (C16 checks those)
inline void number(Kit &k) {
    // the same table gives the same numbers
    static std::map<std::string, std::vector<Stmt>> known;
    auto key = k.table.dump();
    for (auto &s : k.stmts) key += s.inst + s.loc() + ":" + std::to_string(s.col) + s.cond_key() + ";";
    auto it = known.find(key);
    if (it != known.end()) {
        k.stmts = it->second;
        return;
    }
    auto db = hgdb::create_symbol_table(k.path);
    if (!db) mc::fail("the design's symbol table does not load");
    auto orders = db->execution_bp_orders();
    std::map<uint32_t, uint32_t> pos;
    for (uint32_t i = 0; i < orders.size(); i++) pos[orders[i]] = i;
    std::map<std::string, uint32_t> inst_ids;
    for (auto &s : k.stmts) {
        bool found = false;
        for (auto &bp : db->get_breakpoints(s.file, s.line, s.col)) {
            auto n = db->get_instance_name_from_bp(bp.id);
            if (n && *n == s.inst && bp.instance_id) {
                s.id = bp.id;
                s.inst_id = *bp.instance_id;
                found = true;
            }
        }
        if (!found || !pos.count(s.id)) mc::fail("statement " + s.loc() + " of " + s.inst + " is not in the symbol table");
        s.order = pos[s.id];
    }
    std::sort(k.stmts.begin(), k.stmts.end(), [](auto &a, auto &b) { return a.order < b.order; });
    known[key] = k.stmts;
}

// module dut { 1: x; if (a) { 2: y; if (b) 3: z }; 4 if (!b): x } with two children
// module child { 10 if (p): q; 11: r }
inline Kit kit1(int copies, bool second_child = true) {
    Kit k;
    k.copies = copies;
    J blk_b = J::obj({{"type", "block"}, {"condition", "b"}, {"scope", J::arr({assign("z", "z", 3)})}});
    J blk_a = J::obj({{"type", "block"},
                      {"condition", "a"},
                      {"scope", J::arr({assign("y", "y", 2), blk_b})}});
    J top_scope = J::arr({J::obj({{"type", "block"},
                                  {"filename", "dut.py"},
                                  {"scope", J::arr({assign("x", "x", 1), blk_a,
                                                    assign("x", "x", 4, 0, "!b")})}})});
    J insts = J::arr({J::obj({{"name", "c0"}, {"module", "child"}})});
    if (second_child) insts.push(J::obj({{"name", "c1"}, {"module", "child"}}));
    J dut = J::obj({{"type", "module"}, {"name", "dut"}, {"scope", top_scope},
                    {"variables", J::arr({var("a", "a"), var("w", "42", false)})},
                    {"instances", insts}});
    J child = J::obj({{"type", "module"}, {"name", "child"},
                      {"scope", J::arr({J::obj({{"type", "block"},
                                                {"filename", "child.py"},
                                                {"scope", J::arr({assign("q", "q", 10, 0, "p"),
                                                                  assign("r", "r", 11)})}})})},
                      {"variables", J::arr({var("p", "p")})},
                      {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}, {"generator", "check"}});
    auto add = [&](const char *inst, const char *f, int line, std::vector<Lit> c, const char *t) {
        Stmt s;
        s.inst = inst;
        s.file = f;
        s.line = (uint32_t)line;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut", "dut.py", 1, {}, "x");
    add("dut", "dut.py", 2, {{"a", true}}, "y");
    add("dut", "dut.py", 3, {{"b", true}, {"a", true}}, "z");
    add("dut", "dut.py", 4, {{"b", false}}, "x");
    for (auto *i : {"dut.c0", "dut.c1"}) {
        if (!second_child && std::string(i) == "dut.c1") continue;
        add(i, "child.py", 10, {{"p", true}}, "q");
        add(i, "child.py", 11, {}, "r");
    }
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = write_table(k.table);
    number(k);
    return k;
}
inline void bench1(World &w, const Kit &k, bool second_child = true) {
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_signal("tb.clk", 1);
    for (auto &t : k.tops) {
        v.add_module("dut", t);
        for (auto *s : {"clk", "a", "b", "x", "y", "z"})
            v.add_signal(t + "." + s, s[0] == 'c' ? 1 : 8);
        for (auto *c : {".c0", ".c1"}) {
            if (!second_child && std::string(c) == ".c1") continue;
            v.add_module("child", t + c);
            for (auto *s : {"clk", "p", "q", "r"}) v.add_signal(t + c + "." + s, s[0] == 'c' ? 1 : s[0] == 'p' ? 16 : 8);
        }
    }
    w.cfg.clk = k.tops[0] + ".clk";
}

// locations that differ only in the file or the column:
// module dut { dut.py 1: x }, module child { child.py 10:1 if (p) q; 10:5 if (p) r },
// module other { other.py 10:1 if (p) q; 10:5 if (!p) r }; u0 and u2 are children, u1 is an other
inline Kit kit2(int copies) {
    Kit k;
    k.copies = copies;
    auto file = [](const char *f, std::vector<J> v) {
        J sc = J::arr();
        for (auto &x : v) sc.push(x);
        return J::arr({J::obj({{"type", "block"}, {"filename", f}, {"scope", sc}})});
    };
    auto inst = [](const char *n, const char *m) { return J::obj({{"name", n}, {"module", m}}); };
    auto mod = [](const char *n, const J &scope, const J &insts) {
        return J::obj({{"type", "module"}, {"name", n}, {"scope", scope}, {"variables", J::arr()}, {"instances", insts}});
    };
    J dut = mod("dut", file("dut.py", {assign("x", "x", 1)}),
                J::arr({inst("u0", "child"), inst("u1", "other"), inst("u2", "child")}));
    J child = mod("child", file("child.py", {assign("q", "q", 10, 1, "p"), assign("r", "r", 10, 5, "p")}), J::arr());
    J other = mod("other", file("other.py", {assign("q", "q", 10, 1, "p"), assign("r", "r", 10, 5, "!p")}), J::arr());
    k.table = J::obj({{"table", J::arr({dut, child, other})}, {"top", "dut"}, {"generator", "check"}});
    auto add = [&](const char *i, const char *f, int line, int col, std::vector<Lit> c, const char *t) {
        Stmt s;
        s.inst = i;
        s.file = f;
        s.line = (uint32_t)line;
        s.col = (uint32_t)col;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut", "dut.py", 1, 0, {}, "x");
    for (auto *u : {"dut.u0", "dut.u1", "dut.u2"}) {
        bool o = u[5] == '1';
        add(u, o ? "other.py" : "child.py", 10, 1, {{"p", true}}, "q");
        add(u, o ? "other.py" : "child.py", 10, 5, {{"p", !o}}, "r");
    }
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = write_table(k.table);
    number(k);
    return k;
}
inline void bench2(World &w, const Kit &k) {
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_signal("tb.clk", 1);
    for (auto &t : k.tops) {
        v.add_module("dut", t);
        for (auto *s : {"clk", "x"}) v.add_signal(t + "." + s, s[0] == 'c' ? 1 : 8);
        for (auto *c : {".u0", ".u1", ".u2"}) {
            v.add_module(c[2] == '1' ? "other" : "child", t + c);
            for (auto *s : {"clk", "p", "q", "r"}) v.add_signal(t + c + "." + s, s[0] == 'c' ? 1 : s[0] == 'p' ? 16 : 8);
        }
    }
    w.cfg.clk = k.tops[0] + ".clk";
}

// ---- what a breakpoint-hit message says ----
struct HitScope {
    uint32_t inst_id, bp_id, ns_id;
    std::string inst_name, type;
    std::map<std::string, std::string> local, gen;
};
struct Hit {
    uint64_t time;
    std::string file;
    uint64_t line, col;
    std::vector<HitScope> scopes;
};
inline bool is_hit(const J &m) { return m["type"].str() == "breakpoint"; }
inline Hit parse_hit(const J &m) {
    Hit h;
    auto &p = m["payload"];
    h.time = p["time"].u();
    h.file = p["filename"].str();
    h.line = p["line_num"].u();
    h.col = p["column_num"].u();
    for (auto &i : p["instances"].a) {
        HitScope s;
        s.inst_id = (uint32_t)i["instance_id"].u();
        s.bp_id = (uint32_t)i["breakpoint_id"].u();
        s.ns_id = (uint32_t)i["namespace_id"].u();
        s.inst_name = i["instance_name"].str();
        s.type = i["bp_type"].str();
        for (auto &kv : i["local"].o) s.local[kv.first] = kv.second.str();
        for (auto &kv : i["generator"].o) s.gen[kv.first] = kv.second.str();
        h.scopes.push_back(s);
    }
    return h;
}
inline std::string show(const Hit &h) {
    std::string s = h.file + ":" + std::to_string(h.line) + "@" + std::to_string(h.time) + " [";
    for (auto &i : h.scopes) s += std::to_string(i.bp_id) + "/" + std::to_string(i.ns_id) + " ";
    return s + "]";
}
}  // namespace design
