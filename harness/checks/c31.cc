// C31: symbol tables of several families built with the generator library (compressed, compressed
// twice or not, reordering on or off), loaded by the debugger, every query compared with what was
// put in.
// build: plain
#include <fstream>

#include "db.hh"
#include "json.hh"
#include "refdb.hh"
using namespace refdb;
namespace gen = hgdb::json;

static J var(const std::string &n, const std::string &v, bool rtl = true) { return J::obj({{"name", n}, {"value", v}, {"rtl", rtl}}); }
static J entry(const std::string &type, int line, int col, const std::string &cond, const J &v, const std::string &file = "") {
    J j = J::obj({{"type", type}, {"line", line}});
    if (type != "none") j.set("variable", v);
    if (col) j.set("column", col);
    if (!cond.empty()) j.set("condition", cond);
    if (!file.empty()) j.set("filename", file);
    return j;
}
static J block(const std::string &file, const J &scope, const std::string &cond = "", int line = 0) {
    J j = J::obj({{"type", "block"}, {"scope", scope}});
    if (!file.empty()) j.set("filename", file);
    if (!cond.empty()) j.set("condition", cond);
    if (line) j.set("line", line);
    return j;
}
static J module(const std::string &name, const J &scope, const J &vars = J::arr(), const J &insts = J::arr()) {
    return J::obj({{"type", "module"}, {"name", name}, {"scope", scope}, {"variables", vars}, {"instances", insts}});
}
static J inst(const std::string &n, const std::string &m) { return J::obj({{"name", n}, {"module", m}}); }

// the same table put together with the library
static gen::Variable gvar(const J &v) { return gen::Variable{.name = v["name"].str(), .value = v["value"].str(), .rtl = v["rtl"].b, .id = {}}; }
template <typename S>
static void attr(S *s, const J &e) {
    if (e.has("line")) s->line_num = (uint32_t)e["line"].u();
    if (e.has("column")) s->column_num = (uint32_t)e["column"].u();
    if (e.has("condition")) s->condition = e["condition"].str();
    if (e.has("filename")) s->filename = e["filename"].str();
}
template <typename S>
static void fill(S *parent, const J &scope) {
    for (auto &e : scope.a) {
        auto t = e["type"].str();
        if (t == "decl" || t == "assign")
            attr(parent->template create_scope<gen::VarStmt>(gvar(e["variable"]), e["line"].u(), t == "decl"), e);
        else {
            auto *s = parent->template create_scope<gen::Scope<>>();
            attr(s, e);
            if (t == "block") fill(s, e["scope"]);
        }
    }
}
enum Mode { Plain, Compress, Twice };
static std::string generate(const J &t, Mode mode, bool reorder, bool late) {
    gen::SymbolTable table(t["generator"].str());
    std::map<std::string, gen::Module *> mods;
    auto body = [&](const J &m) {
        auto *p = mods.at(m["name"].str());
        for (auto &v : m["variables"].a) p->add_variable(gvar(v));
        fill(p, m["scope"]);
    };
    for (auto &m : t["table"].a) {
        mods[m["name"].str()] = table.add_module(m["name"].str());
        if (!late) body(m);
    }
    for (auto &m : t["table"].a)
        for (auto &i : m["instances"].a) mods.at(m["name"].str())->add_instance(i["name"].str(), mods.at(i["module"].str()));
    if (late)
        for (auto &m : t["table"].a) body(m);
    if (!reorder) table.disable_reorder();
    if (mode != Plain) table.compress();
    if (mode == Twice) table.compress();
    return table.output();
}
static void check(J t, Opt base = {}, bool all_modes = true) {
    t.set("generator", "check \"g\"\\");
    // tops: modules that are instantiated nowhere
    std::set<std::string> used;
    for (auto &m : t["table"].a)
        for (auto &i : m["instances"].a) used.insert(i["module"].str());
    J tops = J::arr();
    for (auto &m : t["table"].a)
        if (!used.count(m["name"].str())) tops.push(m["name"].str());
    t.set("top", tops);
    int nm = all_modes ? 6 : 2;
    int m = mc::choose(nm);
    Mode mode = all_modes ? (Mode)(m % 3) : (Mode)m;
    bool reorder = m < 3;
    t.set("reorder", reorder);
    mc::note("generated from " + t.dump());
    auto text = generate(t, mode, reorder, m % 2);
    J parsed;
    std::string what = std::string(mode == Plain ? "" : mode == Compress ? "compressed " : "twice compressed ") + "table from " + t.dump() + ": " + text;
    if (!mj::parse(text, parsed)) mc::fail("output is no JSON, " + what);
    if (parsed["generator"] != t["generator"]) mc::fail("generator, " + what);
    auto path = mc::scratch() + "/t.json";
    std::ofstream(path) << text;
    auto p = hgdb::create_symbol_table(path);
    if (!p || p->bad()) mc::fail("rejected: " + what);
    Table ref(t);
    Opt o = base;
    o.what = what + ": ";
    Compare(*p, ref, o).run();
    mc::transition();
    mc::state(mc::hash(text));
    mc::nontrivial(mc::hash(text));
    mc::sample(text);
}

// ---- flat: order, merging, shared variables ----
static const char *CONDS[] = {"", "a", "b || c"};
static J some_var(size_t k) {
    switch (k % 5) {
        case 0: return var("x", "sx");
        case 1: return var("x", "7", false);
        case 2: return var("y", "sx");
        case 3: return var("x", "sx", false);
        default: return var("sx", "x");
    }
}
static const size_t NFLAT = 2 * 2 * 2 * 5 + 4;
static J flat_entry(size_t k) {
    if (k >= 40) return entry("none", (int)(k - 40) % 2 + 1, (int)(k - 40) / 2, "", J());
    return entry(k % 2 ? "assign" : "decl", (int)(k / 2 % 2) + 1, (int)(k / 4 % 2) * 3, CONDS[k % 3], some_var(k / 8));
}
static void flat(size_t top) {
    int n = mc::thorough() ? 3 : 2;
    J sc = J::arr({flat_entry(top)});
    for (int i = 1; i < n; i++) sc.push(flat_entry((size_t)mc::choose((int)NFLAT)));
    auto extra = mc::choose(2);
    if (extra) sc.push(entry("assign", 1, 0, "", var("z", "sx")));
    J gv = J::arr({some_var(top / 8), var("p", "3", false)});
    check(J::obj({{"table", J::arr({module("m", J::arr({block("a.py", sc)}), gv)})}}));
}
// ---- nested: file names of blocks and statements, the same as or different from those around ----
static void nested(size_t top) {
    static const char *F[] = {"", "a.py", "b.py"};
    auto own = [&](int k) { return std::string(F[k]); };
    auto depth = top % 3;
    const std::string outer = top / 3 % 2 ? "a.py" : "b.py";
    J stmts = J::arr({entry("assign", 3, 0, CONDS[mc::choose(3)], var("x", "s"), own(mc::choose(3))), entry("decl", 2, 0, "", var("x", "s"), own(mc::choose(mc::thorough() ? 3 : 2)))});
    J scope = stmts;
    scope.push(entry("none", 4, 2, "", J(), own(mc::choose(2))));
    for (size_t i = 0; i < depth; i++) {
        J around = J::arr({entry("decl", 5 - (int)i, 0, "", var("q" + std::to_string(i), "s"))});
        around.push(block(own(mc::choose(3)), scope, CONDS[mc::choose(2)], mc::thorough() ? mc::choose(2) * 7 : (int)i * 7));
        around.push(entry("assign", 1, 1 + (int)i, "", var("x", "t")));
        scope = around;
    }
    Opt o;
    o.extra_files = {"/w/a.py", "/w/b.py", "w/a.py", ""};
    check(J::obj({{"table", J::arr({module("m", J::arr({block(outer, scope), block("b.py", stmts)}))})}}), o);
}
// ---- hierarchies over up to four modules ----
static void hier(size_t top) {
    std::vector<std::string> names = {"top", "m1", "m2", "m3"};
    // edges from a module to later ones, with multiplicity 0..2
    std::vector<J> inst_lists(4, J::arr());
    for (size_t a = 0, k = 0; a < 4; a++)
        for (size_t b = a + 1; b < 4; b++, k++) {
            int n = k < 3 ? (int)(top / (k == 0 ? 1 : k == 1 ? 3 : 9)) % 3 : mc::choose(k == 3 ? 3 : 2);
            for (int i = 0; i < n; i++) inst_lists[a].push(inst("i" + std::to_string(i) + names[b].substr(0, 2), names[b]));
        }
    J tb = J::arr();
    int perm = mc::choose(3);
    std::vector<size_t> order = {0, 1, 2, 3};
    if (perm == 1) order = {3, 2, 1, 0};
    if (perm == 2) order = {2, 0, 3, 1};
    for (auto i : order)
        tb.push(module(names[i], J::arr({block("f" + std::to_string(i % 2) + ".py", J::arr({entry("decl", 1, 0, "", var("x", "v")), entry("assign", (int)i + 1, 0, "en", var("x", "v" + std::to_string(i)))}))}), J::arr({var("g", "v")}), inst_lists[i]));
    check(J::obj({{"table", tb}}));
}
// ---- strings ----
static std::vector<std::string> alphabet() {
    std::vector<std::string> r;
    for (int c = 1; c < 256; c++) r.push_back(std::string(1, (char)c));
    for (auto *s : {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\u0041", "\\n", "\\\"", "</", "%s", "{}", "\\\\", "a\"b", "\",\"x\":\"", "\t\n\r", " ", "0x1f", "true", "null"}) r.push_back(s);
    return r;
}
static void strings(size_t top) {
    static auto A = alphabet();
    auto s = A[top];
    // alone, at either end, twice, with another
    std::vector<std::string> forms = {s, "a" + s, s + "b", "a" + s + "b", s + s, s + "\"", "\\" + s, s + "\\"};
    auto f = forms[(size_t)mc::choose((int)forms.size())];
    int where = mc::choose(6);
    J t;
    J scope = J::arr({entry("assign", 1, 0, "", var("x", "v")), entry("decl", 2, 0, "", var("y", "v")), entry("none", 3, 0, "", J())});
    auto with = [&](const J &sc, const std::string &file, const std::string &mod, const std::string &in, const std::string &gname) {
        return J::obj({{"table", J::arr({module(mod, J::arr({block(file, sc)}), J::arr({var(gname, "v")}), J::arr({inst(in, "sub")})), module("sub", J::arr({block("b.py", scope)}))})}});
    };
    switch (where) {
        case 0: {  // condition
            J e = entry("assign", 1, 0, f, var("x", "v"));
            t = with(J::arr({e, block("", J::arr({entry("none", 3, 0, "", J())}), f)}), "a.py", "m", "i", "g");
            break;
        }
        case 1:  // variables
            t = with(J::arr({entry("decl", 1, 0, "", var(f, "v")), entry("decl", 2, 0, "", var("x", f)), entry("assign", 3, 0, "", var(f, f, false)), entry("none", 4, 0, "", J())}), "a.py", "m", "i", "g");
            break;
        case 2:  // file
            t = with(scope, f, "m", "i", "g");
            break;
        case 3:  // module
            t = with(scope, "a.py", f, "i", "g");
            break;
        case 4:  // instance
            if (f.find('.') != f.npos) return;
            t = with(scope, "a.py", "m", f, "g");
            break;
        default:
            t = with(scope, "a.py", "m", "i", f);
    }
    if (where == 3 && (f == "sub" || f.find('.') != f.npos)) return;
    check(t, {}, false);
}
// ---- numbers ----
static void numbers(size_t) {
    for (uint32_t line : {1u, 2u, 65535u, 65536u, 1000000u, 2147483647u, 2147483648u, 4294967295u})
        for (uint32_t col : {0u, 1u, 255u, 65536u, 4294967295u}) {
            J e = entry("assign", 0, 0, "", var("x", "v"));
            e.set("line", (int64_t)line);
            if (col) e.set("column", (int64_t)col);
            J n = entry("none", 0, 0, "", J());
            n.set("line", (int64_t)line);
            J t = J::obj({{"generator", "g"}, {"top", J::arr({"m"})}, {"reorder", true}, {"table", J::arr({module("m", J::arr({block("a.py", J::arr({e, n}))}))})}});
            auto path = mc::scratch() + "/t.json";
            auto text = generate(t, Compress, true, false);
            std::ofstream(path) << text;
            auto p = hgdb::create_symbol_table(path);
            if (!p || p->bad()) mc::fail("rejected: " + text);
            Table ref(t);
            Opt o;
            o.what = text + ": ";
            Compare(*p, ref, o).run();
            mc::transition();
            mc::nontrivial(mc::hash(text));
        }
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C31";
    size_t n1 = NFLAT, n2 = 6, n3 = 27, n4 = alphabet().size();
    c.tops = [=] { return n1 + n2 + n3 + n4 + 1; };
    c.body = [=](size_t t) {
        if (t < n2) return nested(t);
        t -= n2;
        if (t < n1) return flat(t);
        t -= n1;
        if (t < n3) return hier(t);
        t -= n3;
        if (t < n4) return strings(t);
        numbers(t);
    };
    return mc::main_(argc, argv, c);
}
