// C16: every symbol table of several families, every query, against a reference semantics of the
// table as data.
// build: plain
#include <fstream>

#include "db.hh"
#include "refdb.hh"
using namespace refdb;

static J var(const std::string &n, const std::string &v, bool rtl = true, int delay = 0) {
    J j = J::obj({{"name", n}, {"value", v}, {"rtl", rtl}});
    if (delay) {
        j.set("type", "delay");
        if (delay > 1) j.set("depth", delay);
    }
    return j;
}
static J entry(const char *type, int line, int col, const char *cond, const J &v) {
    J j = J::obj({{"type", type}, {"line", line}});
    if (std::string(type) != "none") j.set("variable", v);
    if (col) j.set("column", col);
    if (cond && *cond) j.set("condition", cond);
    return j;
}
static J block(const char *file, const J &scope, const char *cond = nullptr) {
    J j = J::obj({{"type", "block"}, {"scope", scope}});
    if (file && *file) j.set("filename", file);
    if (cond && *cond) j.set("condition", cond);
    return j;
}
static J module(const char *name, const J &scope, const J &vars = J::arr(), const J &insts = J::arr()) {
    return J::obj({{"type", "module"}, {"name", name}, {"scope", scope}, {"variables", vars}, {"instances", insts}});
}
static J inst(const char *n, const char *m) { return J::obj({{"name", n}, {"module", m}}); }

static void check(const J &t, Opt o = {}) {
    auto text = t.dump();
    mc::note(text);
    auto path = mc::scratch() + "/t.json";
    {
        std::ofstream f(path);
        f << text;
    }
    auto p = hgdb::create_symbol_table(path);
    if (!p || p->bad()) mc::fail("valid symbol table rejected: " + text);
    Table ref(t);
    if (o.indexed)
        p->set_get_symbol_value([&](const std::string &n) -> std::optional<int64_t> {
            for (auto &i : ref.insts) {
                if (n.rfind(i.name + ".", 0) != 0) continue;
                Var v;
                v.value = n.substr(i.name.size() + 1);
                if (v.value.find('.') != v.value.npos) continue;
                return o.index_value(v, i.name);
            }
            return {};
        });
    o.what = "table " + text + ": ";
    Compare c(*p, ref, o);
    c.run();
    mc::transition();
    mc::state(mc::hash(text));
    mc::nontrivial(mc::hash(text));
    mc::sample(text);
    // an ownership transfer keeps everything
    if (auto *j = dynamic_cast<hgdb::JSONSymbolTableProvider *>(p.get())) {
        if (mc::hash(text) % 16 == 0) {
            auto q = std::unique_ptr<hgdb::JSONSymbolTableProvider>(j);
            (void)p.release();
            hgdb::JSONSymbolTableProvider moved(std::move(q));
            o.what = "moved table " + text + ": ";
            Compare c2(moved, ref, o);
            c2.run();
        }
    }
}

static J some_var(size_t i) {
    switch (i % 4) {
        case 0:
            return var("x", "sx");
        case 1:
            return var("x", "7", false);
        case 2:
            return var("y", "sy[0]", true, 2);
        default:
            return var("y.0", "x", true);
    }
}
static const char *CONDS[] = {"", "a", "b || c"};
// flat blocks: order, merging, shadowing, locations
static J flat_entry(size_t k, size_t pos) {
    static const char *types[] = {"decl", "assign", "none"};
    auto ty = k % 3;
    auto line = (int)(k / 3 % 2) + 1, col = (int)(k / 6 % 2) * 2;
    auto *cond = CONDS[k / 12 % 3];
    return entry(types[ty], line, col, cond, some_var(pos * 3 + ty));
}
static const size_t NFLAT = 36;
static void flat(size_t top) {
    bool reorder = top % 2;
    std::vector<size_t> k = {top / 2 % NFLAT};
    int n = 3;
    if (mc::thorough() && (top / 2) % 3 == 0) n = 4;
    for (int i = 1; i < n; i++) k.push_back((size_t)mc::choose(i == 3 ? 12 : NFLAT));
    J sc = J::arr();
    for (size_t i = 0; i < k.size(); i++) sc.push(flat_entry(k[i], i));
    J t = J::obj({{"table", J::arr({module("m", J::arr({block("a.py", sc)}), J::arr({var("x", "gx"), var("p", "3", false)}))})}, {"top", "m"}});
    if (!reorder) t.set("reorder", false);
    check(t);
}
// nested blocks
static void nested(size_t top) {
    bool reorder = top % 2;
    auto present = top / 2 % 32;
    auto lines = (size_t)mc::choose(32);
    const char *c1 = CONDS[mc::choose(3)], *c2 = CONDS[mc::choose(3)];
    const char *own = mc::choose(2) ? "r" : "";
    auto ln = [&](int i, int base) { return lines >> i & 1 ? 20 - base : base; };
    J in = J::arr(), mid = J::arr(), out = J::arr();
    if (present & 1) out.push(entry("decl", ln(0, 1), 0, "", var("x", "s0")));
    if (present & 2) mid.push(entry("assign", ln(1, 2), 0, own, var("x", "s1")));
    if (present & 4) in.push(entry("assign", ln(2, 3), 3, own, var("y", "s2", true, 1)));
    mid.push(block("", in, c2));
    if (present & 8) mid.push(entry("decl", ln(3, 3), 1, "", var("y", "12", false)));
    out.push(block("", mid, c1));
    if (present & 16) out.push(entry("assign", ln(4, 2), 0, own, var("z", "x")));
    J t = J::obj({{"table", J::arr({module("m", J::arr({block("d/a.py", out)}))})}, {"top", J::arr({"m"})}, {"reorder", reorder}});
    Opt o;
    o.extra_files = {"/w/d/a.py", "a.py", "xd/a.py", "/d/a.py", "d/a.pyx", ""};
    check(t, o);
}
// hierarchies and files
static void hier(size_t top) {
    auto i1 = top % 8, i2 = top / 8 % 4, tp = top / 32 % 3;
    static const char *F[] = {"a.py", "b.py", "/w/a.py", "w/a.py"};
    const char *f0 = F[mc::choose(4)], *f1 = F[mc::choose(4)], *f2 = F[mc::choose(4)];
    J a = J::arr(), b = J::arr();
    if (i1 & 1) a.push(inst("b", "m1"));
    if (i1 & 2) a.push(inst("a", "m1"));
    if (i1 & 4) a.push(inst("cc", "m2"));
    if (i2 & 1) b.push(inst("d", "m2"));
    if (i2 & 2) b.push(inst("a", "m2"));
    J t0 = module("top", J::arr({block(f0, J::arr({entry("decl", 1, 0, "", var("x", "x")), entry("assign", 2, 1, "en", var("y", "y"))})),
                                 block("b.py", J::arr({entry("none", 2, 1, "", J())}))}),
                  J::arr({var("g", "top.g"), var("h", "11", false)}), a);
    J m1 = module("m1", J::arr({block(f1, J::arr({entry("assign", 2, 0, "p", var("x", "q"))}))}), J::arr({var("x", "gx")}), b);
    J m2 = module("m2", J::arr({block(f2, J::arr({entry("assign", 1, 0, "", var("z", "z")), entry("assign", 2, 0, "", var("z", "zz"))}))}));
    if (!b.a.size()) m1.erase("instances");
    J t = J::obj({{"table", J::arr({m1, t0, m2})}});
    if (tp == 0) t.set("top", "top");
    if (tp == 1) t.set("top", J::arr({"top", "m2"}));
    if (tp == 2) t.set("top", J::arr({"m2", "top", "m1"}));
    Opt o;
    o.extra_files = {"/w/a.py", "a.py", "w/a.py", "/x/w/a.py", "/x/b.py", "/w/w/a.py", "x/a.py", "/a.py", "py"};
    check(t, o);
}
// variables, references, indices
static void vars(size_t top) {
    static const std::vector<J> E = [] {
        std::vector<J> e;
        auto idx = [](const J &v, int mn, int mx) { return J::obj({{"var", v}, {"min", mn}, {"max", mx}}); };
        e.push_back(entry("assign", 1, 0, "", var("x", "sx")));
        e.push_back(entry("assign", 1, 0, "", "ref0"));
        e.push_back(entry("decl", 1, 0, "", "ref1"));
        e.push_back(entry("assign", 2, 0, "c", var("x.1", "sx1")));
        e.push_back(entry("assign", 2, 0, "", var("x[1]", "sx_1")));
        e.push_back(entry("decl", 2, 0, "", var("x", "sx.1")));
        e.push_back(entry("assign", 1, 0, "", var("y[1][0]", "yy")));
        e.push_back(entry("assign", 1, 2, "", var("x", "5", false)));
        J a = entry("assign", 1, 0, "", var("x", "arr"));
        a.set("indices", J::arr({idx(var("i", "ii"), 0, 1)}));
        e.push_back(a);
        a = entry("assign", 1, 0, "c || d", var("x", "arr"));
        a.set("indices", J::arr({idx(var("i", "jj"), 1, 2), idx("ref0", 4, 9)}));
        e.push_back(a);
        a = entry("assign", 2, 0, "", var("x", "arr"));
        a.set("indices", J::arr({idx(var("i", "1", false), 0, 1)}));
        e.push_back(a);
        a = entry("assign", 2, 0, "c", var("y[1]", "arr2"));
        a.set("indices", J::arr({idx("ref1", 0, 0)}));
        e.push_back(a);
        e.push_back(entry("assign", 0, 0, "", var("x", "no_line")));
        e.push_back(entry("decl", 1, 0, "", var("z", "m.sz", true, 3)));
        a = entry("assign", 1, 0, "", var("x", "sx"));
        a.set("indices", J::arr());
        e.push_back(a);
        e.push_back(entry("none", 1, 0, "q", J()));
        return e;
    }();
    auto n = E.size();
    bool nest = top / n % 2;
    bool reorder = top / n / 2 % 2;
    J sc = J::arr({E[top % n]});
    sc.push(E[(size_t)mc::choose((int)n)]);
    sc.push(E[(size_t)mc::choose((int)n)]);
    if (nest) sc = J::arr({E[8], block("", sc, "k")});
    sc.push(entry("none", 9, 0, "", J()));
    J r0 = var("r", "rr", true, 2), r1 = var("x", "rx");
    r0.set("id", "ref0");
    r1.set("id", "ref1");
    J t = J::obj({{"table", J::arr({module("m", J::arr({block("a.py", sc)}), J::arr({var("x", "gx"), "ref0", var("x.1", "8", false)}))})},
                  {"top", "m"}, {"variables", J::arr({r0, r1})}, {"reorder", reorder}});
    Opt o;
    int mode = mc::choose(2);
    if (mode) {
        o.indexed = true;
        o.index_value = [](const Var &v, const std::string &) -> std::optional<int64_t> {
            if (v.value == "ii") return 1;
            if (v.value == "rr") return 4;
            if (v.value == "rx") return 0;
            return {};
        };
    }
    check(t, o);
}
// nested files, attributes
static void files(size_t top) {
    static const char *F[] = {"a.py", "d/a.py", "/w/d/a.py", "/w/a.py", "b.py", "/w/d/../a.py"};
    size_t x = top % 6;
    J t = J::obj({{"table", J::arr({module("m", J::arr({block(F[x], J::arr({entry("none", 1, 0, "", J()), block(F[mc::choose(6)], J::arr({entry("assign", 1, 0, "u", var("x", "x")), block("", J::arr({entry("none", 5, 0, "", J())}), "v")}), "w")})),
                                                        block(F[mc::choose(6)], J::arr({entry("none", 1, 1, "", J())}))}))})},
                  {"top", "m"}});
    J at = J::arr();
    int na = mc::choose(4);
    for (int i = 0; i < na; i++) at.push(J::obj({{"name", i == 1 ? "clock" : "x"}, {"value", "v" + std::to_string(i)}}));
    if (na > 2) {
        at.push(J::obj({{"name", "x"}}));
        at.push(J::obj({{"value", "x"}}));
        at.push(J::obj({{"name", ""}, {"value", ""}}));
    }
    if (na) t.set("attributes", at);
    t.set("generator", "check");
    Opt o;
    o.extra_files = {"/w/d/a.py", "/w/a.py", "a.py", "d/a.py", "/z/d/a.py", "/w/d/../a.py", "/", "", "w/b.py", "/b.py", "/ab.py"};
    check(t, o);
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C16";
    size_t n1 = NFLAT * 2, n2 = 64, n3 = 96, n4 = 16 * 4, n5 = 6;
    c.tops = [=] { return n1 + n2 + n3 + n4 + n5; };
    c.body = [=](size_t t) {
        if (t < n5) return files(t);
        t -= n5;
        if (t < n1) return flat(t);
        t -= n1;
        if (t < n2) return nested(t);
        t -= n2;
        if (t < n3) return hier(t);
        t -= n3;
        vars(t);
    };
    return mc::main_(argc, argv, c);
}
