// Reference semantics of a JSON symbol table, independent of hgdb's parser: computed from the
// table as data (mj::J), and a comparison of every query of a provider against it.
#pragma once
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "eval.hh"
#include "explore.hh"
#include "mj.hh"
#include "symbol.hh"

namespace refdb {
using mj::J;

struct Var {
    std::string name, value;
    bool rtl = true, delay = false;
    uint32_t depth = 1;
    bool operator==(const Var &o) const {
        return name == o.name && value == o.value && rtl == o.rtl && delay == o.delay && (!delay || depth == o.depth);
    }
    std::string show() const {
        return name + "=" + value + (rtl ? "" : "(const)") + (delay ? "@" + std::to_string(depth) : "");
    }
};
inline std::string show(const std::vector<Var> &v) {
    std::string s;
    for (auto &x : v) s += x.show() + " ";
    return s;
}
struct Index {
    Var var;
    uint32_t min = 0, max = 0;
};
struct Ent {
    enum T { None, Decl, Block, Assign, Module } t = None;
    uint32_t line = 0, col = 0;
    std::string cond, file;
    std::vector<Var> vars;
    std::vector<Index> indices;
    std::vector<std::shared_ptr<Ent>> kids;
    Ent *parent = nullptr;
    // innermost file
    std::string filename() const {
        for (auto *e = this; e; e = e->parent)
            if (e->t == Block && !e->file.empty()) return e->file;
        return "";
    }
    std::vector<std::string> filenames() const {
        std::vector<std::string> r;
        for (auto *e = this; e; e = e->parent)
            if (e->t == Block && !e->file.empty()) r.push_back(e->file);
        return r;
    }
    // conditions, own first
    std::vector<std::string> conds() const {
        std::vector<std::string> r;
        for (auto *e = this; e; e = e->parent)
            if (!e->cond.empty()) r.push_back(e->cond);
        return r;
    }
};
struct Mod : Ent {
    std::string name;
    std::vector<Var> gvars;
    std::map<std::string, std::string> insts;
};
struct Inst {
    std::string name;
    const Mod *mod;
    std::vector<const Ent *> stmts;  // in program order
};

class Table {
public:
    std::map<std::string, std::shared_ptr<Mod>> mods;
    std::vector<Inst> insts;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::map<std::string, Var> refs;
    bool reorder = true;

    explicit Table(const J &t) {
        if (t.has("variables"))
            for (auto &v : t["variables"].a) refs.emplace(v["id"].str(), var(v));
        for (auto &m : t["table"].a) {
            if (m["type"].str() != "module") continue;
            auto p = std::make_shared<Mod>();
            p->t = Ent::Module;
            p->name = m["name"].str();
            fill(m, *p);
            for (auto &v : m["variables"].a) p->gvars.push_back(var(v));
            if (m.has("instances"))
                for (auto &i : m["instances"].a) p->insts.emplace(i["name"].str(), i["module"].str());
            mods[p->name] = p;
        }
        if (t.has("reorder")) reorder = t["reorder"].b;
        if (reorder)
            for (auto &m : mods)
                for (auto &k : m.second->kids) sort(*k);
        if (t.has("attributes"))
            for (auto &a : t["attributes"].a)
                if (a.has("name") && a.has("value")) attrs.emplace_back(a["name"].str(), a["value"].str());
        std::set<std::string> tops;
        if (t["top"].t == J::Arr)
            for (auto &x : t["top"].a) tops.insert(x.str());
        else
            tops.insert(t["top"].str());
        for (auto &x : tops) add_inst(x, mods.at(x).get());
    }
    const Inst *inst(const std::string &n) const {
        for (auto &i : insts)
            if (i.name == n) return &i;
        return nullptr;
    }
    // visible variables, in declaration order; idx: value of an index variable (nullopt: unknown)
    std::vector<Var> context(const Ent *e, const std::function<std::optional<int64_t>(const Var &)> &idx = {}) const {
        std::vector<Var> r;
        for (auto *n = e; n && n->t != Ent::Module; n = n->parent) {
            std::vector<Var> l;
            for (auto &k : n->parent->kids) {
                if (k.get() == n) break;
                if (k->t != Ent::Decl && k->t != Ent::Assign) continue;
                if (k->indices.empty()) l.insert(l.end(), k->vars.begin(), k->vars.end());
                else {
                    // later index declarations come out first, as everything else is reversed
                    for (auto it = k->indices.rbegin(); it != k->indices.rend(); ++it) {
                        auto &i = *it;
                        if (!i.var.rtl || !idx) continue;
                        auto v = idx(i.var);
                        if (!v) continue;
                        Var x;
                        x.name = k->vars[0].name + "." + std::to_string(*v);
                        x.value = k->vars[0].value + "[" + std::to_string(*v) + "]";
                        x.delay = i.var.delay;
                        x.depth = 1;
                        l.push_back(x);
                    }
                }
            }
            r.insert(r.begin(), l.begin(), l.end());
        }
        return r;
    }
    std::vector<Var> delayed(const Ent *e) const {
        std::vector<Var> r;
        for (auto *n = e; n && n->t != Ent::Module; n = n->parent) {
            std::vector<Var> l;
            for (auto &k : n->parent->kids) {
                if (k.get() == n) break;
                if (k->t != Ent::Decl && k->t != Ent::Assign) continue;
                bool d = false;
                for (auto &i : k->indices) d = d || (i.var.rtl && i.var.delay);
                for (auto &v : k->vars)
                    if (d || v.delay) l.push_back(v);
            }
            r.insert(r.begin(), l.begin(), l.end());
        }
        return r;
    }

private:
    Var var(const J &v) {
        if (v.t == J::Str) return refs.at(v.str());
        Var r;
        r.name = v["name"].str();
        r.value = v["value"].str();
        r.rtl = v["rtl"].b;
        r.delay = v.has("type") && v["type"].str() == "delay";
        if (r.delay && v.has("depth")) r.depth = (uint32_t)v["depth"].u();
        return r;
    }
    void fill(const J &j, Ent &e) {
        e.line = j.has("line") ? (uint32_t)j["line"].u() : 0;
        e.col = j.has("column") ? (uint32_t)j["column"].u() : 0;
        e.cond = j.has("condition") ? j["condition"].str() : "";
        if (e.t == Ent::Decl || e.t == Ent::Assign) e.vars.push_back(var(j["variable"]));
        if (e.t == Ent::Assign && j.has("indices"))
            for (auto &i : j["indices"].a) e.indices.push_back({var(i["var"]), (uint32_t)i["min"].u(), (uint32_t)i["max"].u()});
        if (e.t == Ent::Block && j.has("filename")) e.file = j["filename"].str();
        if (e.t == Ent::Block || e.t == Ent::Module)
            for (auto &k : j["scope"].a) {
                auto c = std::make_shared<Ent>();
                auto ty = k["type"].str();
                c->t = ty == "decl" ? Ent::Decl : ty == "assign" ? Ent::Assign : ty == "block" ? Ent::Block : Ent::None;
                c->parent = &e;
                fill(k, *c);
                e.kids.push_back(c);
            }
    }
    static void sort(Ent &e) {
        if (e.t != Ent::Block) return;
        for (auto &k : e.kids) sort(*k);
        std::stable_sort(e.kids.begin(), e.kids.end(), [](auto &a, auto &b) {
            return std::make_tuple(a->line, a->col, (int)a->t) < std::make_tuple(b->line, b->col, (int)b->t);
        });
        if (!e.kids.empty()) e.line = e.kids[0]->line;
        // variables declared or assigned together are one statement
        std::vector<std::shared_ptr<Ent>> out;
        for (auto &k : e.kids) {
            if (!out.empty()) {
                auto &p = *out.back();
                if ((k->t == Ent::Decl || k->t == Ent::Assign) && p.t == k->t && p.line == k->line &&
                    p.col == k->col && p.cond == k->cond && p.indices.empty() && k->indices.empty()) {
                    p.vars.insert(p.vars.end(), k->vars.begin(), k->vars.end());
                    continue;
                }
            }
            out.push_back(k);
        }
        e.kids = out;
    }
    static void flatten(const Ent &e, std::vector<const Ent *> &r) {
        for (auto &k : e.kids) {
            if (k->t == Ent::Block) flatten(*k, r);
            else if (k->line > 0) r.push_back(k.get());
        }
    }
    void add_inst(const std::string &n, const Mod *m) {
        Inst i{n, m, {}};
        flatten(*m, i.stmts);
        insts.push_back(i);
        for (auto &s : m->insts) add_inst(n + "." + s.first, mods.at(s.second).get());
    }
};

inline std::vector<std::string> tokens(const std::string &s, const std::string &delim) {
    std::vector<std::string> r;
    std::string c;
    for (char x : s) {
        if (delim.find(x) != delim.npos) {
            if (!c.empty()) r.push_back(c);
            c.clear();
        } else
            c += x;
    }
    if (!c.empty()) r.push_back(c);
    return r;
}

// does the text mean the conjunction of these conditions?
inline bool same_condition(const std::string &text, const std::vector<std::string> &conds) {
    if (conds.empty()) return text.empty();
    if (conds.size() == 1 && text == conds[0]) return true;
    if (text.empty()) return false;
    hgdb::DebugExpression e(text);
    if (!e.correct()) {
        // conditions that do not parse (special characters): all of them have to be in there
        for (auto &c : conds)
            if (text.find(c) == text.npos) return false;
        return true;
    }
    std::vector<std::unique_ptr<hgdb::DebugExpression>> cs;
    std::set<std::string> syms(e.symbols().begin(), e.symbols().end()), csyms;
    for (auto &c : conds) {
        cs.push_back(std::make_unique<hgdb::DebugExpression>(c));
        if (!cs.back()->correct()) return false;
        for (auto &s : cs.back()->symbols()) csyms.insert(s);
    }
    for (auto &s : syms)
        if (!csyms.count(s)) return false;
    std::vector<std::string> names(csyms.begin(), csyms.end());
    if (names.size() > 6) names.resize(6);
    static const int64_t VAL[3] = {0, 1, 2};
    std::vector<size_t> ix(names.size(), 0);
    while (true) {
        std::unordered_map<std::string, int64_t> m;
        for (auto &s : csyms) m[s] = 1;
        for (size_t i = 0; i < names.size(); i++) m[names[i]] = VAL[ix[i]];
        bool want = true;
        for (auto &c : cs) {
            for (auto &s : c->symbols()) c->set_value(s, m.at(s));
            want = want && c->eval() != 0;
        }
        for (auto &s : syms) e.set_value(s, m.at(s));
        if ((e.eval() != 0) != want) return false;
        size_t k = 0;
        while (k < ix.size() && ++ix[k] == 3) ix[k++] = 0;
        if (k == ix.size()) break;
    }
    return true;
}

// a query path denotes a table path: it is the same, or the table's is relative and the query
// ends with it
inline bool path_match(const std::string &query, const std::string &ref) {
    if (ref.empty()) return false;
    if (query == ref) return true;
    if (ref[0] == '/') return false;
    if (query.size() <= ref.size()) return false;
    return query.compare(query.size() - ref.size(), ref.size(), ref) == 0 && query[query.size() - ref.size() - 1] == '/';
}

struct Opt {
    bool indexed = false;  // the provider has been given a way to read signals
    std::function<std::optional<int64_t>(const Var &, const std::string &inst)> index_value;
    bool static_values = true;
    std::vector<std::string> extra_files, extra_names, extra_insts;
    std::string what;
    // file names as the client sees them
    std::function<std::string(const std::string &)> to_client;
    bool by_query_scope = true;
};

class Compare {
public:
    hgdb::SymbolTableProvider &p;
    const Table &t;
    Opt o;
    std::map<uint32_t, std::pair<const Inst *, const Ent *>> ids;
    std::map<const Inst *, uint32_t> inst_ids;
    std::map<std::pair<const Inst *, const Ent *>, uint32_t> rev;

    Compare(hgdb::SymbolTableProvider &p, const Table &t, Opt o = {}) : p(p), t(t), o(std::move(o)) {}

    [[noreturn]] void fail(const std::string &w) { mc::fail(o.what + w); }
    std::string cl(const std::string &f) { return o.to_client ? o.to_client(f) : f; }
    std::string loc(const Ent *e) { return cl(e->filename()) + ":" + std::to_string(e->line) + ":" + std::to_string(e->col); }

    void bp(const hgdb::BreakPoint &b, const std::string &file, const std::string &how) {
        auto it = ids.find(b.id);
        if (it == ids.end()) fail(how + " gives the unknown breakpoint " + std::to_string(b.id));
        auto *e = it->second.second;
        if (b.line_num != e->line || b.column_num != e->col || b.filename != file)
            fail(how + ": breakpoint " + std::to_string(b.id) + " is at " + b.filename + ":" + std::to_string(b.line_num) + ":" + std::to_string(b.column_num) + ", expected " + file + ":" + std::to_string(e->line) + ":" + std::to_string(e->col));
        if (!b.instance_id || *b.instance_id != inst_ids.at(it->second.first)) fail(how + ": wrong instance of breakpoint " + std::to_string(b.id));
        if (!same_condition(b.condition, e->conds())) {
            std::string w;
            for (auto &c : e->conds()) w += " (" + c + ")";
            fail(how + ": breakpoint " + std::to_string(b.id) + " has the condition '" + b.condition + "', expected all of" + w);
        }
        if (!b.trigger.empty()) fail(how + ": trigger out of nowhere");
        mc::validated();
    }
    static std::vector<Var> conv(const std::vector<hgdb::SymbolTableProvider::ContextVariableInfo> &l) {
        std::vector<Var> r;
        for (auto &x : l) {
            Var v;
            v.name = x.first.name;
            v.value = x.second.value;
            v.rtl = x.second.is_rtl;
            v.delay = x.first.type == (uint32_t)hgdb::SymbolTableProvider::VariableType::delay;
            v.depth = x.first.depth;
            r.push_back(v);
        }
        return r;
    }
    void identify() {
        // names and ids of instances
        auto names = p.get_instance_names();
        std::set<std::string> ns(names.begin(), names.end()), want;
        for (auto &i : t.insts) want.insert(i.name);
        if (ns != want || names.size() != want.size()) {
            std::string s;
            for (auto &n : names) s += n + " ";
            fail("instance names are " + s);
        }
        std::set<uint64_t> seen;
        for (auto &i : t.insts) {
            auto id = p.get_instance_id(i.name);
            if (!id) fail("instance " + i.name + " has no id");
            if (!seen.insert(*id).second) fail("instance id " + std::to_string(*id) + " is used twice");
            inst_ids[&i] = (uint32_t)*id;
            auto n = p.get_instance_name((uint32_t)*id);
            if (!n || *n != i.name) fail("instance " + std::to_string(*id) + " is called " + (n ? *n : "nothing") + ", expected " + i.name);
        }
        // statements
        auto ord = p.execution_bp_orders();
        std::map<std::string, std::vector<uint32_t>> by;
        std::set<uint32_t> once;
        for (auto b : ord) {
            if (!once.insert(b).second) fail("breakpoint " + std::to_string(b) + " is twice in the execution order");
            auto iid = p.get_instance_id((uint64_t)b);
            if (!iid) fail("breakpoint " + std::to_string(b) + " has no instance");
            auto n = p.get_instance_name((uint32_t)*iid);
            if (!n) fail("breakpoint " + std::to_string(b) + " has no instance name");
            by[*n].push_back(b);
        }
        for (auto &i : t.insts) {
            auto &l = by[i.name];
            if (l.size() != i.stmts.size()) fail("instance " + i.name + " has " + std::to_string(l.size()) + " statements in the execution order, expected " + std::to_string(i.stmts.size()));
            for (size_t k = 0; k < l.size(); k++) {
                ids[l[k]] = {&i, i.stmts[k]};
                rev[{&i, i.stmts[k]}] = l[k];
            }
            by.erase(i.name);
        }
        if (!by.empty()) fail("statements of the unknown instance " + by.begin()->first);
    }
    void run() {
        identify();
        mc::evaluation();
        // by id
        for (auto &x : ids) {
            auto b = p.get_breakpoint(x.first);
            bool located = !x.second.second->filename().empty();
            if (!b && located) fail("breakpoint " + std::to_string(x.first) + " (" + loc(x.second.second) + ") is not found");
            if (b) bp(*b, cl(x.second.second->filename()), "by id");
            if (!located) continue;
            auto n = p.get_instance_name_from_bp(x.first);
            if (!n || *n != x.second.first->name) fail("breakpoint " + std::to_string(x.first) + " belongs to " + (n ? *n : "nothing") + ", expected " + x.second.first->name);
            variables(x.first, x.second.first, x.second.second);
        }
        // ids that do not exist
        for (uint32_t bad : {(uint32_t)ids.size() + 100, 0xffffffffu}) {
            if (ids.count(bad)) continue;
            if (p.get_breakpoint(bad)) fail("breakpoint " + std::to_string(bad) + " exists");
            if (p.get_instance_id((uint64_t)bad)) fail("breakpoint " + std::to_string(bad) + " has an instance");
            if (!p.get_context_variables(bad).empty() || !p.get_context_delayed_variables(bad).empty()) fail("variables of an unknown breakpoint");
            if (!p.get_assigned_breakpoints("x", bad).empty()) fail("assignments around an unknown breakpoint");
            if (p.get_instance_name_from_bp(bad)) fail("unknown breakpoint has an instance name");
        }
        for (uint32_t bad : {0xfffffffeu, 100000u}) {
            if (p.get_instance_name(bad)) fail("instance " + std::to_string(bad) + " exists");
            if (!p.get_generator_variable(bad).empty()) fail("variables of an unknown instance");
        }
        for (auto n : {"nope", "", ".", "dut.nope"}) {
            if (t.inst(n)) continue;
            if (p.get_instance_id(std::string(n))) fail(std::string("instance '") + n + "' exists");
        }
        for (auto &i : t.insts)
            for (auto *sfx : {".nope", "x"})
                if (!t.inst(i.name + sfx) && p.get_instance_id(i.name + sfx)) fail("instance " + i.name + sfx + " exists");
        files();
        generators();
        for (auto &a : t.attrs) attr(a.first);
        attr("no such attribute");
        attr("");
    }
    void attr(const std::string &n) {
        std::vector<std::string> want;
        for (auto &a : t.attrs)
            if (a.first == n) want.push_back(a.second);
        if (p.get_annotation_values(n) != want) fail("values of attribute '" + n + "'");
    }
    void files() {
        std::set<std::string> used, all;
        std::function<void(const Ent &, std::set<std::string> &)> walk = [&](const Ent &e, std::set<std::string> &s) {
            if (e.t == Ent::Block && !e.file.empty()) s.insert(e.file);
            for (auto &k : e.kids) walk(*k, s);
        };
        for (auto &m : t.mods) walk(*m.second, all);
        for (auto &i : t.insts) walk(*i.mod, used);
        auto got = p.get_filenames();
        std::set<std::string> g(got.begin(), got.end()), mused, mall;
        for (auto &f : used) mused.insert(cl(f));
        for (auto &f : all) mall.insert(cl(f));
        if (g.size() != got.size()) fail("a file name is listed twice");
        for (auto &f : mused)
            if (!g.count(f)) fail("file " + f + " is not listed");
        for (auto &f : g)
            if (!mall.count(f)) fail("file " + f + " is listed");
        // by location
        std::set<std::string> q(all.begin(), all.end());
        if (!o.to_client) q.insert(o.extra_files.begin(), o.extra_files.end());
        for (auto &f : q) {
            // candidates: statements below a block of that file
            std::set<std::pair<uint32_t, uint32_t>> lcs = {{0, 0}, {77, 0}};
            auto cf = cl(f);
            for (auto &x : ids) {
                auto *e = x.second.second;
                lcs.insert({e->line, 0});
                lcs.insert({e->line, e->col});
                lcs.insert({e->line, 9});
            }
            for (auto &lc : lcs) {
                std::map<uint32_t, std::string> want;
                for (auto &x : ids) {
                    auto *e = x.second.second;
                    if (lc.first && (lc.first != e->line || (lc.second && lc.second != e->col))) continue;
                    for (auto &ef : e->filenames())
                        if (path_match(f, ef)) {
                            want[x.first] = cl(ef);
                            break;
                        }
                }
                auto how = "by location " + cf + ":" + std::to_string(lc.first) + ":" + std::to_string(lc.second);
                auto check = [&](const std::vector<hgdb::BreakPoint> &l, const std::string &how) {
                    std::set<uint32_t> g;
                    for (auto &b : l) {
                        if (!g.insert(b.id).second) fail(how + ": breakpoint " + std::to_string(b.id) + " twice");
                        auto it = want.find(b.id);
                        if (it == want.end()) fail(how + " gives breakpoint " + std::to_string(b.id));
                        bp(b, it->second, how);
                    }
                    if (g.size() != want.size()) fail(how + " gives " + std::to_string(g.size()) + " breakpoints, expected " + std::to_string(want.size()));
                };
                if (lc.first == 0)
                    check(p.get_breakpoints(cf), how + " (file)");
                else {
                    check(p.get_breakpoints(cf, lc.first, lc.second), how);
                    if (!lc.second) check(p.get_breakpoints(cf, lc.first), how + " (no column)");
                }
            }
        }
    }
    std::optional<std::string> resolve(const std::vector<Var> &vis, bool newest, const std::string &n, const std::string &inst) {
        const Var *r = nullptr;
        auto pick = [&](const Var &v) {
            if (newest || !r) r = &v;
        };
        for (auto &v : vis)
            if (tokens(v.name, "[].") == tokens(n, "[].")) pick(v);
        if (!r)
            for (auto &v : vis)
                if (v.value == n) pick(v);
        if (!r) return std::nullopt;
        if (!r->rtl) return r->value;
        if (r->value.rfind(inst + ".", 0) == 0) return r->value;
        return inst + "." + r->value;
    }
    void resolved(const std::optional<std::string> &g, const std::optional<std::string> &w, const std::string &what) {
        if (g != w) fail(what + " resolves to " + (g ? "'" + *g + "'" : "nothing") + ", expected " + (w ? "'" + *w + "'" : "nothing"));
        mc::validated();
    }
    std::set<std::string> names_of(const std::vector<Var> &vis) {
        std::set<std::string> r = {"nope", "", "x.y.z", "x[0]", "0"};
        for (auto &v : vis) {
            r.insert(v.name);
            r.insert(v.value);
            r.insert(v.name + "[0]");
            r.insert(v.name + ".0");
            auto n = v.name;
            std::replace(n.begin(), n.end(), '.', '[');
            r.insert(n);
        }
        r.insert(o.extra_names.begin(), o.extra_names.end());
        return r;
    }
    void variables(uint32_t id, const Inst *i, const Ent *e) {
        std::function<std::optional<int64_t>(const Var &)> idx;
        if (o.indexed) idx = [&](const Var &v) { return o.index_value(v, i->name); };
        auto want = t.context(e, idx);
        auto got = conv(p.get_context_variables(id));
        if (got != want) fail("variables at " + loc(e) + " of " + i->name + ": " + show(got) + ", expected " + show(want));
        // delayed ones
        auto wd = t.delayed(e);
        auto gd = conv(p.get_context_delayed_variables(id));
        // an assignment with a delayed index counts as delayed whatever its type says
        for (auto &v : wd) v.delay = true;
        for (auto &v : gd) v.delay = true;
        if (o.by_query_scope && gd != wd) fail("delayed variables at " + loc(e) + ": " + show(gd) + ", expected " + show(wd));
        for (auto &n : names_of(want))
            resolved(p.resolve_scoped_name_breakpoint(n, id), resolve(want, true, n, i->name), "'" + n + "' at " + loc(e) + " of " + i->name);
        if (o.static_values) {
            std::map<std::string, int64_t> w;
            std::set<std::string> seen;
            for (auto it = want.rbegin(); it != want.rend(); ++it) {
                if (!seen.insert(it->name).second || it->rtl) continue;
                if (!it->value.empty() && it->value.find_first_not_of("0123456789") == std::string::npos && it->value.size() < 18) w[it->name] = std::stoll(it->value);
            }
            std::map<std::string, int64_t> g;
            for (auto &x : p.get_context_static_values(id)) g[x.first] = x.second;
            if (g != w) fail("constants at " + loc(e));
        }
        // assignments in the same module
        std::set<std::string> targets = {"nope", "", "x", "x.0", "x[0]", "x.1", "x[1]", "x[2]", "x[9]", "y[1][0]", "y.1.0", "[", "0"};
        for (auto *s : i->stmts)
            for (auto &v : s->vars) {
                targets.insert(v.name);
                targets.insert(v.value);
            }
        for (auto &n : targets) {
            std::map<uint32_t, std::pair<std::string, std::vector<std::string>>> w;
            auto tk = tokens(n, "[].");
            for (auto *s : i->stmts) {
                if (s->t != Ent::Assign || tk.empty()) continue;
                bool done = false;
                if (!s->indices.empty() && tk.size() > 1) {
                    auto base = std::vector<std::string>(tk.begin(), tk.end() - 1);
                    auto last = tk.back();
                    if (tokens(s->vars[0].name, "[].") == base && last.find_first_not_of("0123456789") == last.npos && last.size() < 10) {
                        auto k = (uint64_t)std::stoull(last);
                        for (auto &ix : s->indices)
                            if (ix.min <= k && k <= ix.max) {
                                auto c = s->conds();
                                c.push_back(ix.var.value + " == " + std::to_string(k));
                                w[rev.at({i, s})] = {s->vars[0].value + "[" + std::to_string(k) + "]", c};
                                done = true;
                                break;
                            }
                    }
                }
                if (done) continue;
                for (auto &v : s->vars)
                    if (tokens(v.name, "[].") == tk) {
                        w[rev.at({i, s})] = {v.value, s->conds()};
                        break;
                    }
            }
            auto g = p.get_assigned_breakpoints(n, id);
            auto how = "assignments of '" + n + "' around " + loc(e) + " of " + i->name;
            std::set<uint32_t> seen;
            for (auto &[bid, v, c] : g) {
                if (!seen.insert(bid).second) fail(how + ": twice");
                auto it = w.find(bid);
                if (it == w.end()) fail(how + " include " + std::to_string(bid));
                if (it->second.first != v) fail(how + ": RTL name " + v + ", expected " + it->second.first);
                if (!same_condition(c, it->second.second)) fail(how + ": condition '" + c + "'");
            }
            if (seen.size() != w.size()) fail(how + ": " + std::to_string(seen.size()) + ", expected " + std::to_string(w.size()));
            mc::validated();
        }
    }
    void generators() {
        for (auto &i : t.insts) {
            auto id = inst_ids.at(&i);
            std::vector<Var> g;
            for (auto &x : p.get_generator_variable(id)) {
                Var v;
                v.name = x.first.name;
                v.value = x.second.value;
                v.rtl = x.second.is_rtl;
                g.push_back(v);
            }
            std::vector<Var> w;
            for (auto v : i.mod->gvars) {
                v.delay = false;
                v.depth = 1;
                w.push_back(v);
            }
            if (g != w) fail("variables of instance " + i.name + ": " + show(g) + ", expected " + show(w));
            for (auto &n : names_of(w)) resolved(p.resolve_scoped_name_instance(n, id), resolve(w, false, n, i.name), "'" + n + "' in instance " + i.name);
        }
    }
};
}  // namespace refdb
