// C05: every breakpoint report of families of symbol tables (scopes, shadowing, arrays, modules,
// constants, missing signals, children) is compared with an independent reading of the table and
// of the simulated signals.
// build: plain
#include "model.hh"
#include "refdb.hh"
using namespace model;
using refdb::Ent;
using refdb::Inst;
using refdb::Table;
using refdb::Var;

static J var(const std::string &n, const std::string &v, bool rtl = true) {
    return J::obj({{"name", n}, {"value", v}, {"rtl", rtl}});
}
static J entry(const char *type, int line, int col, const J &v) {
    J j = J::obj({{"type", type}, {"line", line}});
    if (v.t != J::Null) j.set("variable", v);
    if (col) j.set("column", col);
    return j;
}
static J block(const char *file, const J &scope) {
    J j = J::obj({{"type", "block"}, {"scope", scope}});
    if (file && *file) j.set("filename", file);
    return j;
}

// the signals of one copy, relative to its top (module m with the child c0, c1 of module k)
struct Sig {
    const char *name;
    uint32_t width;
    std::vector<uint32_t> dims;
};
static const std::vector<Sig> SIGS = {
    {"sx", 8, {}}, {"sy", 8, {}}, {"b1", 1, {}}, {"w32", 32, {}}, {"w5", 5, {}}, {"ii", 4, {}},
    {"arr", 8, {3}}, {"mat", 4, {2, 2}}, {"c0.q", 8, {}}, {"c0.b", 1, {}}, {"c1.q", 8, {}},
    {"c1.b", 1, {}}, {"c0.arr", 6, {2}}, {"c1.arr", 6, {2}}, {"bus.v", 1, {}}, {"bus.d", 7, {}}, {"bus.mem", 3, {2}}};

struct Bench {
    World &w;
    std::vector<std::string> tops;
    Bench(World &w, int copies) : w(w) {
        auto &v = *w.vpi;
        v.add_module("tb", "tb");
        v.add_signal("tb.clk", 1);
        for (int i = 0; i < copies; i++) {
            auto t = "tb.d" + std::to_string(i);
            tops.push_back(t);
            v.add_module("m", t);
            v.add_signal(t + ".clk", 1);
            v.add_module("k", t + ".c0");
            v.add_module("k", t + ".c1");
            v.add_module("intf", t + ".bus");
            for (auto &s : SIGS) {
                if (s.dims.empty()) v.add_signal(t + "." + s.name, s.width);
                else v.add_array(t + "." + s.name, s.dims, s.width, false);
            }
        }
        w.cfg.clk = tops[0] + ".clk";
    }
    sim::Obj *obj(const std::string &full) {
        if (auto *o = w.vpi->find(full)) return o;
        // an element
        auto p = full.rfind('[');
        if (p == full.npos || full.back() != ']') return nullptr;
        auto *a = obj(full.substr(0, p));
        auto ix = full.substr(p + 1, full.size() - p - 2);
        if (!a || a->k != sim::Obj::Array || ix.empty() || ix.find_first_not_of("0123456789") != ix.npos) return nullptr;
        auto n = std::stoull(ix);
        return n < a->children.size() ? a->children[n] : nullptr;
    }
    void each(sim::Obj *o, const std::function<void(sim::Obj *)> &f) {
        if (o->k == sim::Obj::Array)
            for (auto *c : o->children) each(c, f);
        else
            f(o);
    }
    void drive(uint64_t seed) {
        uint64_t n = 0;
        for (auto &t : tops)
            for (auto &s : SIGS)
                each(obj(t + "." + s.name), [&](sim::Obj *o) {
                    n++;
                    uint64_t val = mc::hash(std::to_string(seed) + "/" + std::to_string(n)) >> 13;
                    if (std::string(s.name) == "w32") val |= (seed & 1) << 31;
                    // the index selects an element
                    if (std::string(s.name) == "ii") val = (seed + (t == tops[0] ? 0 : 1)) % 4;
                    o->value = val & (o->width >= 64 ? ~0ull : (1ull << o->width) - 1);
                });
    }
};
static std::string value_text(sim::Obj *o, bool hex) {
    if (!o || o->k != sim::Obj::Signal) return "ERROR";
    if (!hex) return std::to_string((int64_t)(int32_t)(uint32_t)o->value);
    if (o->width == 1) return std::to_string(o->value & 1);
    char buf[32];
    snprintf(buf, sizeof buf, "0x%0*llX", (int)(o->width + 3) / 4, (unsigned long long)o->value);
    return buf;
}
static void flatten(sim::Obj *o, const std::string &name, bool hex, std::map<std::string, std::string> &r) {
    if (o && o->k == sim::Obj::Array) {
        for (size_t i = 0; i < o->children.size(); i++) flatten(o->children[i], name + "." + std::to_string(i), hex, r);
    } else if (o && o->k == sim::Obj::Module) {
        for (auto *s : o->signals) flatten(s, name + "." + s->name, hex, r);
    } else
        r[name] = value_text(o, hex);
}
// full name of what a variable of an instance stands for
static std::string full_name(const Bench &b, int copy, const std::string &inst, const std::string &value) {
    auto abs = [&](const std::string &n) {
        auto p = n.find('.');
        return b.tops[(size_t)copy] + (p == n.npos ? "" : n.substr(p));
    };
    if (value.rfind("m.", 0) == 0) return abs(value);
    return abs(inst + "." + value);
}
static std::map<std::string, std::string> reading(Bench &b, int copy, const std::string &inst, const std::vector<Var> &vars, bool hex) {
    std::map<std::string, std::string> r;
    for (auto &v : vars) {
        if (!v.rtl) r[v.name] = v.value;
        else flatten(b.obj(full_name(b, copy, inst, v.value)), v.name, hex, r);
    }
    return r;
}
static std::string show_map(const std::map<std::string, std::string> &m) {
    std::string s = "{";
    for (auto &p : m) s += p.first + "=" + p.second + " ";
    return s + "}";
}

static void check(const J &t, int copies, bool hex, bool single) {
    auto text = t.dump();
    mc::note(text);
    auto path = design::write_table(t);
    World w;
    Bench b(w, copies);
    // what the ids mean
    Table ref(t);
    auto p = hgdb::create_symbol_table(path);
    if (!p) mc::fail("valid symbol table rejected: " + text);
    refdb::Compare ids(*p, ref);
    ids.identify();
    p.reset();
    // the time may need more than 32 bits
    if (hex) w.vpi->time = single ? 0x312345678ull : 0xfffffff0ull;
    w.create();
    w.start();
    w.open(1);
    must(w, world::r_connect(path));
    if (hex) must(w, world::request("option-change", J::obj({{"use_hex_str", true}})));
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    std::set<std::string> locs;
    for (auto &i : ref.insts)
        for (auto *e : i.stmts)
            if (locs.insert(e->filename() + ":" + std::to_string(e->line)).second)
                must(w, world::r_bp("add", e->filename(), e->line));
    w.send(1, world::r_cmd("continue"));
    auto judge = [&](const Hit &h, std::set<std::pair<uint32_t, int>> &seen) {
        if (h.time != w.vpi->time) mc::fail("the report gives time " + std::to_string(h.time) + " instead of " + std::to_string(w.vpi->time));
        for (auto &sc : h.scopes) {
            auto it = ids.ids.find(sc.bp_id);
            if (it == ids.ids.end()) mc::fail("unknown breakpoint id in " + design::show(h));
            auto &inst = *it->second.first;
            auto *e = it->second.second;
            int copy = (int)sc.ns_id;
            if (copy < 0 || copy >= copies) mc::fail("unknown namespace in " + design::show(h));
            if (!seen.insert({sc.bp_id, copy}).second) mc::fail("reported twice: " + design::show(h));
            std::string what = "report of breakpoint " + std::to_string(sc.bp_id) + " (" + inst.name + ", copy " + std::to_string(copy) + "): ";
            if (h.file != e->filename() || h.line != e->line || h.col != e->col)
                mc::fail(what + "location " + h.file + ":" + std::to_string(h.line) + ":" + std::to_string(h.col));
            if (sc.inst_id != ids.inst_ids.at(&inst)) mc::fail(what + "instance id " + std::to_string(sc.inst_id));
            auto dot = inst.name.find('.');
            auto fn = b.tops[(size_t)copy] + (dot == inst.name.npos ? "" : inst.name.substr(dot));
            if (sc.inst_name != fn) mc::fail(what + "instance name " + sc.inst_name + " instead of " + fn);
            if (sc.type != "normal") mc::fail(what + "kind " + sc.type);
            auto ctx = ref.context(e, [&](const Var &v) -> std::optional<int64_t> {
                auto *o = b.obj(full_name(b, copy, inst.name, v.value));
                if (!o || o->k != sim::Obj::Signal) return {};
                return (int64_t)(int32_t)(uint32_t)o->value;
            });
            auto lw = reading(b, copy, inst.name, ctx, hex);
            if (sc.local != lw) mc::fail(what + "local variables " + show_map(sc.local) + " instead of " + show_map(lw));
            auto gw = reading(b, copy, inst.name, inst.mod->gvars, hex);
            if (sc.gen != gw) mc::fail(what + "generator variables " + show_map(sc.gen) + " instead of " + show_map(gw));
            mc::validated();
            mc::state(mc::hash(show_map(lw) + show_map(gw) + sc.inst_name));
        }
    };
    size_t total = 0;
    for (auto &i : ref.insts) total += i.stmts.size();
    for (uint64_t e = 1; e <= 2; e++) {
        b.drive(e * 7);
        std::set<std::pair<uint32_t, int>> seen;
        auto evs = w.edge();
        for (int n = 0; w.paused(); n++) {
            auto hs = Ref::hits_in(evs);
            if (hs.size() != 1) mc::fail("a pause without exactly one report");
            judge(hs[0], seen);
            if (n > 200) mc::fail("pauses for ever");
            if (e == 2 && n == 0) {
                // values may change while paused (another client's set-value): the next report
                // tells the new ones
                b.drive(99);
            }
            evs = w.send(1, world::r_cmd("continue"));
        }
        if (seen.size() != total * (size_t)copies) mc::fail("reported " + std::to_string(seen.size()) + " of " + std::to_string(total * (size_t)copies) + " hits");
    }
    mc::evaluation();
    mc::nontrivial(mc::hash(text + std::to_string(copies) + (hex ? "h" : "") + (single ? "s" : "")));
    mc::sample(text);
}

static J module_m(const J &scope, const J &vars) {
    return J::obj({{"type", "module"}, {"name", "m"}, {"scope", scope}, {"variables", vars},
                   {"instances", J::arr({J::obj({{"name", "c0"}, {"module", "k"}}), J::obj({{"name", "c1"}, {"module", "k"}})})}});
}
static J module_k(const J &scope, const J &vars) {
    return J::obj({{"type", "module"}, {"name", "k"}, {"scope", scope}, {"variables", vars}, {"instances", J::arr()}});
}
static J table(const J &m, const J &k) {
    return J::obj({{"table", J::arr({m, k})}, {"top", "m"}});
}

// variables of every kind
static const std::vector<J> &kinds() {
    static const std::vector<J> E = [] {
        std::vector<J> e;
        auto idx = [](const J &v, int mn, int mx) { return J::obj({{"var", v}, {"min", mn}, {"max", mx}}); };
        e.push_back(entry("assign", 1, 0, var("x", "sx")));
        e.push_back(entry("decl", 1, 0, var("x", "w32")));
        e.push_back(entry("assign", 2, 0, var("y", "w5")));
        e.push_back(entry("assign", 2, 3, var("x", "7", false)));
        e.push_back(entry("decl", 1, 0, var("x", "arr")));
        e.push_back(entry("assign", 2, 0, var("y", "mat")));
        e.push_back(entry("assign", 1, 0, var("x.1", "b1")));
        e.push_back(entry("assign", 2, 0, var("y", "arr[2]")));
        e.push_back(entry("decl", 2, 0, var("z", "gone")));
        e.push_back(entry("assign", 1, 0, var("z", "c0.q")));
        e.push_back(entry("assign", 1, 0, var("x", "bus")));
        e.push_back(entry("assign", 2, 0, var("y", "m.c1.q")));
        J a = entry("assign", 1, 0, var("x", "arr"));
        a.set("indices", J::arr({idx(var("i", "ii"), 0, 3)}));
        e.push_back(a);
        a = entry("assign", 2, 0, var("y", "mat"));
        a.set("indices", J::arr({idx(var("i", "gone"), 0, 1)}));
        e.push_back(a);
        e.push_back(entry("none", 2, 0, J()));
        return e;
    }();
    return E;
}
static void ctx(size_t top) {
    auto &E = kinds();
    auto n = E.size();
    int copies = 1 + (int)(top & 1);
    bool hex = top >> 1 & 1;
    bool nest = top >> 2 & 1;
    auto f = top >> 3;
    J sc = J::arr({E[f]});
    J second = E[(size_t)mc::choose((int)n)];
    if (nest) {
        J in = J::arr({second, E[(size_t)mc::choose((int)n)]});
        if (mc::thorough()) in.push(E[(size_t)mc::choose((int)n)]);
        sc.push(block("", in));
    } else {
        sc.push(second);
        sc.push(E[(size_t)mc::choose((int)n)]);
        if (mc::thorough()) sc.push(E[(size_t)mc::choose((int)n)]);
    }
    sc.push(entry("none", 9, 0, J()));
    check(table(module_m(J::arr({block("a.py", sc)}), J::arr({var("g", "sy"), var("c", "3", false)})),
                module_k(J::arr({block("b.py", J::arr({entry("assign", 4, 0, var("q", "q"))}))}), J::arr())),
          copies, hex, false);
}
// generator variables and children
static void gen(size_t top) {
    static const std::vector<J> G = {var("g", "q"), var("g", "arr"), var("c", "12", false), var("n", "gone"),
                                     var("up", "m.sx"), var("sib", "m.c1.b"), var("self", "m.c0.q")};
    int copies = 1 + (int)(top & 1);
    bool hex = top >> 1 & 1, single = top >> 2 & 1;
    auto set = top >> 3;  // 7 bits
    J gv = J::arr();
    for (size_t i = 0; i < G.size(); i++)
        if (set >> i & 1) gv.push(G[i]);
    int loc = mc::choose(3);
    J mv = J::arr();
    int mg = mc::choose(4);
    if (mg & 1) mv.push(var("arr", "arr"));
    if (mg & 2) mv.push(var("bus", "bus"));
    J ks = J::arr();
    ks.push(entry("assign", 4, 0, var("q", "q")));
    if (loc) ks.push(entry("decl", 5, 0, var("q", "arr")));
    ks.push(entry("none", 6, 1, J()));
    J ms = J::arr({entry("decl", loc == 2 ? 4 : 1, 0, var("x", "sx")), entry("none", 6, 1, J())});
    check(table(module_m(J::arr({block(loc == 2 ? "b.py" : "a.py", ms)}), mv), module_k(J::arr({block("b.py", ks)}), gv)), copies, hex, single);
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C05";
    size_t n1 = 8 * kinds().size(), n2 = 8 * 128;
    c.tops = [=] { return n1 + n2; };
    c.body = [=](size_t t) {
        if (t < n1) return ctx(t);
        gen(t - n1);
    };
    return mc::main_(argc, argv, c);
}
