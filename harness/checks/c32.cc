// C32: SQLite symbol tables answer what was stored in them, and debugging with one works like
// with any other.
// build: plain orm
#include <fstream>

#include "db.hh"
#include "model.hh"
using namespace model;
using hgdb::SQLiteDebugDatabase;
using Table = std::unique_ptr<hgdb::SymbolTableProvider>;

static std::unique_ptr<SQLiteDebugDatabase> fresh() { return std::make_unique<SQLiteDebugDatabase>(hgdb::init_debug_db("")); }

template <class T>
static std::string sorted(std::vector<T> v, bool order = false) {
    if (!order) std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) {
        if constexpr (std::is_same_v<T, std::string>)
            s += x + " | ";
        else
            s += std::to_string(x) + " | ";
    }
    return s;
}
static void same(const std::string &what, const std::string &got, const std::string &want) {
    mc::validated();
    if (got != want) mc::fail(what + ": " + got + "; expected " + want);
}

// ---- breakpoints, instances, files, execution order ----
struct Bp {
    uint32_t id, inst;
    std::string file;
    uint32_t line, col;
    std::string cond, trig;
    std::string show(const std::string &f) const {
        return std::to_string(id) + " " + std::to_string(inst) + " " + f + ":" + std::to_string(line) + ":" + std::to_string(col) + " {" + cond + "} {" + trig + "}";
    }
};
static std::string show(const hgdb::BreakPoint &b) {
    Bp x{b.id, b.instance_id ? *b.instance_id : 999, b.filename, b.line_num, b.column_num, b.condition, b.trigger};
    return x.show(x.file);
}
static const std::vector<std::string> insts = {"top", "top.a", "top.a.top"};
static void locations(size_t top) {
    bool relative = top & 1;
    bool mapped = top >> 1 & 1;
    size_t scopes = top >> 2;
    auto name = [&](int f) { return relative ? std::vector<std::string>{"x.py", "y.py", "z.py"}[f] : std::vector<std::string>{"/a/x.py", "/a/y.py", "/b/x.py"}[f]; };
    const std::vector<Bp> all = {{10, 0, name(0), 1, 0, "", ""},     {3, 1, name(0), 1, 3, "p", "p q"}, {7, 1, name(0), 2, 3, "p && q", ""},
                                 {0, 0, name(1), 1, 3, "", "a"},     {5, 2, name(2), 1, 1, "!p", ""},   {11, 2, name(0), 2, 1, "", "b"},
                                 {4, 0, name(0), 1, 3, "", ""}};
    for (size_t set = 0; set < 1u << all.size(); set++) {
        auto db = fresh();
        std::vector<Bp> rows;
        for (size_t i = 0; i < all.size(); i++)
            if (set >> i & 1) rows.push_back(all[i]);
        for (uint32_t i = 0; i < insts.size(); i++) hgdb::store_instance(*db, i * 2, insts[i]);
        for (auto &b : rows) hgdb::store_breakpoint(*db, b.id, b.inst * 2, b.file, b.line, b.col, b.cond, b.trig);
        std::vector<uint32_t> ids;
        for (auto &b : rows) ids.push_back(b.id);
        std::vector<uint32_t> order;
        if (scopes == 0) {
            auto r = rows;
            std::sort(r.begin(), r.end(), [](auto &a, auto &b) { return std::tie(a.file, a.line, a.id) < std::tie(b.file, b.line, b.id); });
            for (auto &b : r) order.push_back(b.id);
        } else {
            order = ids;
            if (scopes == 2) std::reverse(order.begin(), order.end());
            if (scopes == 1)
                hgdb::store_scope(*db, 0, order);
            else {
                // two of them, stored the other way round
                auto h = (long)order.size() / 2;
                hgdb::store_scope(*db, 9, std::vector<uint32_t>(order.begin() + h, order.end()));
                hgdb::store_scope(*db, 2, std::vector<uint32_t>(order.begin(), order.begin() + h));
            }
        }
        Table t = std::make_unique<hgdb::DBSymbolTableProvider>(std::move(db));
        mc::evaluation();
        if (t->bad()) mc::fail("the table is not usable");
        auto client = [&](const std::string &f) { return mapped && f.starts_with("/a/") ? "/c" + f.substr(2) : f; };
        if (mapped) t->set_src_mapping({{"/c", "/a"}});
        std::vector<std::string> files;
        for (auto &b : rows) files.push_back(client(b.file));
        std::sort(files.begin(), files.end());
        files.erase(std::unique(files.begin(), files.end()), files.end());
        same("files", sorted(t->get_filenames()), sorted(files));
        same("execution order", sorted(t->execution_bp_orders(), true), sorted(order, true));
        for (auto f : {name(0), name(1), name(2), std::string("/no.py")}) {
            for (uint32_t l = 0; l < 4; l++)
                for (uint32_t c : {0u, 1u, 3u, 4u}) {
                    if (!l && c) continue;
                    std::vector<std::string> got, want;
                    for (auto &b : rows)
                        if (b.file == f && (!l || b.line == l) && (!c || b.col == c)) want.push_back(Bp{b.id, b.inst * 2, b.file, b.line, b.col, b.cond, b.trig}.show(client(b.file)));
                    auto bps = !l ? t->get_breakpoints(client(f)) : !c ? t->get_breakpoints(client(f), l) : t->get_breakpoints(client(f), l, c);
                    for (auto &b : bps) got.push_back(show(b));
                    same("breakpoints at " + client(f) + ":" + std::to_string(l) + ":" + std::to_string(c), sorted(got), sorted(want));
                }
        }
        for (uint32_t id = 0; id < 13; id++) {
            const Bp *w = nullptr;
            for (auto &b : rows)
                if (b.id == id) w = &b;
            auto b = t->get_breakpoint(id);
            same("breakpoint " + std::to_string(id), b ? show(*b) : "none", w ? Bp{w->id, w->inst * 2, w->file, w->line, w->col, w->cond, w->trig}.show(client(w->file)) : "none");
            auto n = t->get_instance_name_from_bp(id);
            same("instance name of breakpoint " + std::to_string(id), n ? *n : "none", w ? insts[w->inst] : "none");
            auto i = t->get_instance_id((uint64_t)id);
            same("instance of breakpoint " + std::to_string(id), i ? std::to_string(*i) : "none", w ? std::to_string(w->inst * 2) : "none");
        }
        for (uint32_t i = 0; i < 7; i++) {
            auto n = t->get_instance_name(i);
            same("instance " + std::to_string(i), n ? *n : "none", i % 2 == 0 && i / 2 < insts.size() ? insts[i / 2] : "none");
        }
        for (size_t i = 0; i <= insts.size(); i++) {
            auto n = t->get_instance_id(i < insts.size() ? insts[i] : std::string("a"));
            same("instance by name", n ? std::to_string(*n) : "none", i < insts.size() ? std::to_string(i * 2) : "none");
        }
        same("instances", sorted(t->get_instance_names()), sorted(insts));
    }
    mc::nontrivial(top);
}

// ---- variables and annotations ----
struct Var {
    std::string value;
    bool rtl;
};
static const std::vector<Var> vars = {{"a", true}, {"top.b", true}, {"42", false}, {"stop", true}, {"c.d", true}, {"top.a.e", true}, {"topb", true}, {"top", false}};
static std::string full(const Var &v, const std::string &inst) { return !v.rtl || v.value.starts_with(inst + ".") ? v.value : inst + "." + v.value; }
// top: instance of the statement (3) x whether there is another statement
static void variables(size_t top) {
    uint32_t inst = top % 3;
    for (size_t set = 0; set < 1u << vars.size(); set++) {
        auto db = fresh();
        for (uint32_t i = 0; i < insts.size(); i++) hgdb::store_instance(*db, i, insts[i]);
        hgdb::store_breakpoint(*db, 0, inst, "/x.py", 1);
        hgdb::store_breakpoint(*db, 1, (inst + 1) % 3, "/x.py", 1);
        for (uint32_t i = 0; i < vars.size(); i++) hgdb::store_variable(*db, i, vars[i].value, vars[i].rtl);
        std::vector<std::string> want[2], gwant, arrays;
        for (uint32_t i = 0; i < vars.size(); i++) {
            auto n = "n" + std::to_string(i);
            // in the set: of the first statement; the others are of the second one, if there is
            bool in = set >> i & 1;
            if (!in && top < 3) continue;
            uint32_t bp = in ? 0 : 1;
            bool delay = (i + set) % 3 == 0;
            hgdb::store_context_variable(*db, n, bp, i, delay);
            auto f = full(vars[i], insts[bp ? (inst + 1) % 3 : inst]);
            want[bp].push_back(n + "=" + f + (vars[i].rtl ? " rtl" : "") + (delay ? " delay" : ""));
            if (vars[i].rtl) arrays.push_back(f);
            if (in) {
                hgdb::store_generator_variable(*db, "g" + n, inst, i);
                gwant.push_back("g" + n + "=" + f + (vars[i].rtl ? " rtl" : ""));
            }
        }
        std::vector<std::string> clocks;
        for (int i = 0; i < 3; i++) {
            if (!(set >> i & 1)) continue;
            clocks.push_back("top.clk" + std::to_string(i));
            hgdb::store_annotation(*db, "clock", clocks.back());
            hgdb::store_annotation(*db, "other", "x");
        }
        Table t = std::make_unique<hgdb::DBSymbolTableProvider>(std::move(db));
        mc::evaluation();
        for (uint32_t bp = 0; bp < 3; bp++) {
            std::vector<std::string> got, delayed, dwant;
            for (auto &[c, v] : t->get_context_variables(bp)) {
                got.push_back(c.name + "=" + v.value + (v.is_rtl ? " rtl" : "") + (c.type ? " delay" : ""));
                if (c.breakpoint_id && *c.breakpoint_id != bp) mc::fail("a variable of another breakpoint");
            }
            same("variables of breakpoint " + std::to_string(bp), sorted(got), bp < 2 ? sorted(want[bp]) : "");
            for (auto &[c, v] : t->get_context_delayed_variables(bp)) delayed.push_back(c.name + "=" + v.value + " rtl delay");
            if (bp < 2)
                for (auto &x : want[bp])
                    if (x.ends_with(" rtl delay")) dwant.push_back(x);
            same("delayed variables of breakpoint " + std::to_string(bp), sorted(delayed), sorted(dwant));
            if (bp == 2) continue;
            auto in = insts[bp ? (inst + 1) % 3 : inst];
            for (uint32_t i = 0; i < vars.size(); i++) {
                bool has = (set >> i & 1) ? bp == 0 : top >= 3 && bp == 1;
                auto r = t->resolve_scoped_name_breakpoint("n" + std::to_string(i), bp);
                same("name n" + std::to_string(i) + " at breakpoint " + std::to_string(bp), r ? *r : "none", has ? full(vars[i], in) : "none");
            }
        }
        for (uint32_t i = 0; i < 4; i++) {
            std::vector<std::string> got;
            for (auto &[g, v] : t->get_generator_variable(i)) got.push_back(g.name + "=" + v.value + (v.is_rtl ? " rtl" : ""));
            same("variables of instance " + std::to_string(i), sorted(got), i == inst ? sorted(gwant) : "");
        }
        for (uint32_t i = 0; i < vars.size(); i++) {
            auto r = t->resolve_scoped_name_instance("gn" + std::to_string(i), inst);
            same("name gn" + std::to_string(i), r ? *r : "none", set >> i & 1 ? full(vars[i], insts[inst]) : "none");
        }
        std::sort(arrays.begin(), arrays.end());
        arrays.erase(std::unique(arrays.begin(), arrays.end()), arrays.end());
        same("signals", sorted(t->get_all_array_names()), sorted(arrays));
        same("clocks", sorted(t->get_annotation_values("clock")), sorted(clocks));
        same("annotations", sorted(t->get_annotation_values("none")), "");
    }
    mc::nontrivial(1000 + top);
}

// ---- assignments ----
struct As {
    uint32_t bp;
    std::string name, value, cond;
    int scope;
};
// five statements, in two instances; each assigns one of these
static void assignments(size_t top) {
    const std::vector<std::vector<std::string>> what = {{}, {"v"}, {"v[0]"}, {"w"}, {"v[0]", "v[1]"}, {"v.x"}};
    const std::vector<uint32_t> inst = {0, 0, 0, 1, 1};
    size_t n = what.size(), total = n * n * n * n;
    size_t first = top % n;
    for (size_t rest = 0; rest < total; rest++) {
        std::vector<size_t> w = {first, rest % n, rest / n % n, rest / n / n % n, rest / n / n / n};
        for (int scoped = 0; scoped < 3; scoped++) {
            auto db = fresh();
            hgdb::store_instance(*db, 0, "top");
            hgdb::store_instance(*db, 1, "top.c");
            std::vector<As> rows;
            for (uint32_t b = 0; b < 5; b++) {
                hgdb::store_breakpoint(*db, b, inst[b], "/x.py", b + 1);
                for (auto &x : what[w[b]]) {
                    // none of them in a scope, all in one, or every other one in a second one
                    int sc = scoped == 0 ? -1 : scoped == 1 ? 3 : 3 + (int)(b & 1);
                    As a{b, x, (b & 2 ? "r_" : "s_") + x.substr(0, 1), b & 1 ? "c" + std::to_string(b) : "", sc};
                    rows.push_back(a);
                    if (sc < 0)
                        hgdb::store_assignment(*db, a.name, a.value, a.bp, a.cond);
                    else
                        hgdb::store_assignment(*db, a.name, a.value, a.bp, a.cond, (uint32_t)sc);
                }
            }
            Table t = std::make_unique<hgdb::DBSymbolTableProvider>(std::move(db));
            mc::evaluation();
            for (uint32_t b = 0; b < 6; b++)
                for (std::string q : {"v", "v[0]", "v[1]", "v.x", "v.x[2]", "w", "w[1]", "u", "", ".", "[", "v.", "v[", ".v"}) {
                    if (q.empty() || q[0] == '.' || q.back() == '.' || q.back() == '[') {
                        // not a name: only that there is an answer
                        t->get_assigned_breakpoints(q, b);
                        continue;
                    }
                    std::vector<As> at;
                    for (auto &a : rows)
                        if (a.bp == b) at.push_back(a);
                    const As *ref = nullptr;
                    std::string member;
                    for (auto &a : at)
                        if (a.name == q) ref = &a;
                    auto p = q.find_first_of("[.");
                    if (!ref && at.size() == 1 && p != std::string::npos && at[0].name == q.substr(0, p)) {
                        ref = &at[0];
                        member = q.substr(p);
                    }
                    std::vector<std::string> got, want;
                    if (ref)
                        for (auto &a : rows)
                            if (a.name == ref->name && a.scope == ref->scope && inst[a.bp] == inst[ref->bp])
                                want.push_back(std::to_string(a.bp) + " " + a.value + member + " {" + a.cond + "}");
                    for (auto &[id, v, c] : t->get_assigned_breakpoints(q, b)) got.push_back(std::to_string(id) + " " + v + " {" + c + "}");
                    same("assignments to " + q + " at " + std::to_string(b), sorted(got), sorted(want));
                }
        }
    }
    mc::nontrivial(2000 + top);
}

// ---- debugging ----
static std::string write_db(const design::Kit &k, const std::map<uint32_t, std::string> &trig, int scopes) {
    auto path = mc::scratch() + "/table.db";
    std::filesystem::remove(path);
    auto db = hgdb::init_debug_db(path);
    const std::vector<std::string> in = {"dut", "dut.c0", "dut.c1"};
    for (uint32_t i = 0; i < in.size(); i++) hgdb::store_instance(db, i, in[i]);
    uint32_t v = 0;
    std::vector<uint32_t> ids;
    for (auto &s : k.stmts) {
        ids.push_back(s.id);
        std::string cond;
        for (auto &l : s.cond) cond += (cond.empty() ? "" : " && ") + std::string(l.pos ? "" : "!") + l.sig;
        auto i = (uint32_t)(std::find(in.begin(), in.end(), s.inst) - in.begin());
        auto t = trig.find(s.id);
        hgdb::store_breakpoint(db, s.id, i, s.file, s.line, s.col, cond, t == trig.end() ? "" : t->second);
        hgdb::store_variable(db, v, s.target, true);
        hgdb::store_context_variable(db, s.target, s.id, v++);
        hgdb::store_assignment(db, s.target, s.target, s.id);
    }
    for (uint32_t i = 0; i < in.size(); i++) {
        hgdb::store_variable(db, v, i ? "p" : "a", true);
        hgdb::store_generator_variable(db, "g", i, v++);
        hgdb::store_variable(db, v, "42", false);
        hgdb::store_generator_variable(db, "k", i, v++);
    }
    if (scopes) hgdb::store_scope(db, 0, ids);
    hgdb::store_annotation(db, "clock", "dut.clk");
    return path;
}
static const std::vector<std::pair<const char *, int>> locs = {
    {"dut.py", 1}, {"dut.py", 2}, {"dut.py", 3}, {"dut.py", 4}, {"child.py", 10}, {"child.py", 11}};
static const std::vector<std::vector<std::vector<std::string>>> lists = {
    {{}, {}, {}, {}, {}, {}}, {{"a"}, {"b"}, {"a", "b"}, {}, {"p"}, {"q"}}, {{"a", "b"}, {"a"}, {"b"}, {"b"}, {"q"}, {"p", "q"}}};
// top: copies x single x by id x order (of the scope, of the file) x trigger lists x location sets
static const std::vector<int> subsets = {63, 3, 14, 48, 4, 17, 33};
static size_t session_tops() { return 16 * lists.size() * subsets.size(); }
static void session(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool single = top >> 1 & 1, by_id = top >> 2 & 1;
    int scopes = (int)(top >> 3) & 1;
    size_t variant = (top >> 4) % lists.size();
    int subset = subsets[(top >> 4) / lists.size()];
    auto kit = design::kit1(copies);
    std::map<uint32_t, std::vector<std::string>> sig;
    std::map<uint32_t, std::string> text;
    for (auto &s : kit.stmts)
        for (size_t i = 0; i < locs.size(); i++)
            if (s.file == locs[i].first && (int)s.line == locs[i].second) {
                sig[s.id] = lists[variant][i];
                for (auto &n : sig[s.id]) text[s.id] += (text[s.id].empty() ? "" : " ") + n;
            }
    if (!scopes) std::sort(kit.stmts.begin(), kit.stmts.end(), [](auto &a, auto &b) { return std::tie(a.file, a.line, a.id) < std::tie(b.file, b.line, b.id); });
    for (uint32_t i = 0; i < kit.stmts.size(); i++) kit.stmts[i].order = i;
    kit.path = write_db(kit, text, scopes);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    ref.single = single;
    std::map<std::pair<uint32_t, int>, std::vector<uint64_t>> last;
    auto now = [&](uint32_t id, int copy, const Vals &v) {
        std::vector<uint64_t> r;
        for (auto &n : sig[id]) r.push_back(v.at(kit.full(kit.by_id(id)->inst, copy) + "." + n));
        return r;
    };
    ref.gate = [&](const Entry &e, const Vals &v) {
        if (sig[e.id].empty()) return true;
        auto it = last.find({e.id, e.copy});
        return it == last.end() || it->second != now(e.id, e.copy, v);
    };
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    for (size_t i = 0; i < locs.size(); i++) {
        if (!(subset >> i & 1)) continue;
        if (!by_id) must(w, world::r_bp("add", locs[i].first, (uint64_t)locs[i].second));
        for (auto *s : ref.at(locs[i].first, (uint32_t)locs[i].second)) {
            if (by_id) must(w, world::r_bpid("add", s->id));
            ref.insert(*s, uc_true());
        }
    }
    ref.go();
    size_t n = copies == 1 ? 12 : 24;
    std::vector<size_t> walk;
    for (size_t i = 0; i < n; i++) {
        walk.push_back(i);
        for (size_t j = i + 1; j < n; j++) {
            walk.push_back(i);
            walk.push_back(j);
        }
    }
    for (auto bits : walk) {
        Vals v;
        for (int c = 0; c < copies; c++) {
            auto &t = kit.tops[(size_t)c];
            size_t a = bits & 1, b = bits >> 1 & 1, p = bits >> 2 & 1, x = bits / 8;
            if (copies == 1) {
                b = bits / 4;
                p = bits >> 1 & 1;
                x = 0;
            }
            if (c) {
                a = x & 1;
                b = x;
                p = !p;
            }
            v[t + ".a"] = a;
            v[t + ".b"] = b;
            v[t + ".c0.p"] = p;
            v[t + ".c1.p"] = a;
            v[t + ".c0.q"] = b;
            v[t + ".c1.q"] = 1 + p;
            v[t + ".x"] = 3 + b;
        }
        mc::evaluation();
        bool p = ref.edge(v);
        int guard = 0;
        while (p) {
            p = ref.resume(Cont);
            if (++guard > 100) mc::fail("does not leave the edge");
        }
        if (!w.idle()) mc::fail("the edge did not finish");
        auto all = w.vpi->values();
        for (auto &e : ref.bps) last[{e.id, e.copy}] = now(e.id, e.copy, all);
    }
    mc::nontrivial(3000 + top);
    mc::counter("pauses", ref.pauses);
}

static size_t tops() { return 12 + 6 + 6 + session_tops(); }
static void body(size_t top) {
    if (top < 12) return locations(top);
    if (top < 18) return variables(top - 12);
    if (top < 24) return assignments(top - 18);
    session(top - 24);
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C32";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
