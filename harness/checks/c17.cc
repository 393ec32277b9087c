// C17: every single (thorough: every pair of) structural change and every one-byte change of valid
// symbol tables, judged by an independent validator; deep nesting; and connecting with bad files.
// build: asan orm
#include <filesystem>
#include <fstream>

#include "db.hh"
#include "model.hh"
#include "refdb.hh"
using mj::J;

enum V { Valid, Invalid, Either };
static V worst(V a, V b) {
    if (a == Invalid || b == Invalid) return Invalid;
    return a == Either || b == Either ? Either : Valid;
}
// the format: include/schema.json plus the references being resolvable
struct Judge {
    V v = Valid;
    bool dup_inst = false;
    std::set<std::string> refs;
    void bad() { v = Invalid; }
    void maybe() { v = worst(v, Either); }
    static bool plain_int(const std::string &s) { return s.find_first_not_of("-0123456789") == s.npos; }
    // an integer in range
    void integer(const J *j, int64_t min, bool range = true) {
        if (!j) return;
        if (j->t != J::Num) return bad();
        if (!plain_int(j->s)) {
            // 1.0 and 1e3 are integers for some validators
            auto d = strtod(j->s.c_str(), nullptr);
            if (d != (double)(int64_t)d) return bad();
            return maybe();
        }
        auto neg = j->s[0] == '-';
        auto val = strtoll(j->s.c_str(), nullptr, 10);
        if (j->s.size() > 15) {
            // only in range or not matters, these are far out of it
            if (range || (neg && min >= 0)) return bad();
            return maybe();
        }
        if (val < min) return bad();
        if (range && (val < 0 || val > 0xffffffffll)) return bad();
        if (!range && (val < 0 || val > 0xffffffffll)) return maybe();
    }
    void string(const J *j) {
        if (j && j->t != J::Str) bad();
    }
    void variable(const J &j, bool used) {
        if (j.t != J::Obj) return bad();
        for (auto *n : {"name", "value"}) {
            if (!j.has(n)) return bad();
            string(j.find(n));
        }
        if (j["rtl"].t != J::Bool) return bad();
        auto *ty = j.find("type");
        bool delay = false;
        if (ty) {
            if (ty->t != J::Str || (ty->s != "normal" && ty->s != "delay")) return bad();
            delay = ty->s == "delay";
        }
        if (auto *d = j.find("depth")) {
            if (delay && used)
                integer(d, 1);
            else
                integer(d, INT64_MIN / 4, false);
        }
    }
    void var_or_ref(const J &j, bool used) {
        if (j.t == J::Str) {
            if (used && !refs.count(j.s)) bad();
            return;
        }
        variable(j, used);
    }
    void dups(const J &j) {
        std::set<std::string> k;
        for (auto &p : j.o)
            if (!k.insert(p.first).second) maybe();
        for (auto &p : j.o) dups(p.second);
        for (auto &p : j.a) dups(p);
    }
    std::vector<const J *> modules;
    void entry(const J &j, bool live, bool root = false) {
        if (j.t != J::Obj) return bad();
        auto *ty = j.find("type");
        if (!ty || ty->t != J::Str) return bad();
        auto &t = ty->s;
        if (t != "decl" && t != "module" && t != "assign" && t != "block" && t != "none") return bad();
        bool stmt = t == "decl" || t == "assign";
        // a number the loader does not read may have any size
        integer(j.find("line"), 0, live);
        integer(j.find("column"), 1, live);
        string(j.find("condition"));
        for (auto *s : {"filename", "name", "target"}) string(j.find(s));
        if (auto *s = j.find("scope")) {
            if (s->t != J::Arr) return bad();
            for (auto &e : s->a) {
                if (t == "module" || root) {
                    // the scope of a module in the table consists of file blocks
                    if (root && (e.t != J::Obj || !e.has("filename") || e["type"].t != J::Str || e["type"].s != "block")) bad();
                }
                entry(e, live && (t == "block" || t == "module"));
            }
        }
        if (auto *x = j.find("variable")) var_or_ref(*x, live && stmt);
        if (auto *x = j.find("variables")) {
            if (x->t != J::Arr) return bad();
            for (auto &e : x->a) var_or_ref(e, live && t == "module");
        }
        if (auto *x = j.find("instances")) {
            if (x->t != J::Arr) return bad();
            std::set<std::string> names;
            for (auto &e : x->a) {
                if (e.t != J::Obj || e["name"].t != J::Str || e["module"].t != J::Str) return bad();
                if (!names.insert(e["name"].s).second) {
                    // which of the two counts is not defined
                    maybe();
                    dup_inst = true;
                }
            }
        }
        if (auto *x = j.find("indices")) {
            if (x->t != J::Arr) return bad();
            for (auto &e : x->a) {
                if (e.t != J::Obj || !e.has("var") || !e.has("min") || !e.has("max")) return bad();
                bool used = live && t == "assign";
                var_or_ref(e["var"], used);
                integer(e.find("min"), INT64_MIN / 4, used);
                integer(e.find("max"), INT64_MIN / 4, used);
                if (e["min"].i() > e["max"].i()) maybe();
            }
        }
        auto need = [&](const char *n) {
            if (!j.has(n)) bad();
        };
        if (t == "module") {
            need("scope");
            need("name");
            need("variables");
            if (live) modules.push_back(&j);
            if (!root) maybe();
        }
        if (t == "block") need("scope");
        if (stmt) {
            need("variable");
            need("line");
        }
    }
    V judge(const J &t) {
        if (t.t != J::Obj) return Invalid;
        dups(t);
        auto *tb = t.find("table");
        auto *top = t.find("top");
        if (!tb || !top || tb->t != J::Arr) return Invalid;
        std::set<std::string> tops;
        if (top->t == J::Str)
            tops.insert(top->s);
        else if (top->t == J::Arr) {
            for (auto &x : top->a) {
                if (x.t != J::Str) return Invalid;
                tops.insert(x.s);
            }
        } else
            return Invalid;
        if (t.has("generator")) string(t.find("generator"));
        if (t.has("reorder") && t["reorder"].t != J::Bool) return Invalid;
        if (auto *vs = t.find("variables")) {
            if (vs->t != J::Arr) return Invalid;
            for (auto &x : vs->a) {
                if (x.t != J::Obj || x["id"].t != J::Str) return Invalid;
                variable(x, true);
                if (!refs.insert(x["id"].s).second) maybe();
            }
        }
        if (auto *at = t.find("attributes")) {
            if (at->t != J::Arr) return Invalid;
            for (auto &x : at->a) {
                if (x.t != J::Obj) return Invalid;
                string(x.find("name"));
                string(x.find("value"));
            }
        }
        for (auto &e : tb->a) entry(e, true, true);
        if (v == Invalid) return v;
        std::map<std::string, const J *> mods;
        for (auto *m : modules)
            if (!mods.emplace((*m)["name"].s, m).second) return Invalid;
        for (auto &x : tops)
            if (!mods.count(x)) return Invalid;
        if (tops.empty()) return Invalid;
        // instances: known modules, no recursion
        std::map<std::string, int> st;
        std::function<bool(const std::string &)> walk = [&](const std::string &n) {
            if (!mods.count(n)) return false;
            if (st[n] == 1) return false;
            if (st[n] == 2) return true;
            st[n] = 1;
            for (auto &i : (*mods[n])["instances"].a)
                if (!walk(i["module"].s)) return false;
            st[n] = 2;
            return true;
        };
        for (auto &m : mods)
            if (!walk(m.first)) return dup_inst ? Either : Invalid;
        return v;
    }
};
// JSON proper: numbers
static V numbers(const J &j) {
    V v = Valid;
    if (j.t == J::Num) {
        auto &s = j.s;
        size_t p = s[0] == '-';
        auto dig = [&] {
            auto b = p;
            while (p < s.size() && isdigit((unsigned char)s[p])) p++;
            return p > b;
        };
        bool zero = p < s.size() && s[p] == '0';
        auto b = p;
        if (!dig() || (zero && p > b + 1)) return Invalid;
        if (p < s.size() && s[p] == '.') {
            p++;
            if (!dig()) return Invalid;
        }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
            p++;
            if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
            if (!dig()) return Invalid;
            v = Either;  // may be out of range
        }
        if (p != s.size()) return Invalid;
    }
    for (auto &p : j.o) v = worst(v, numbers(p.second));
    for (auto &p : j.a) v = worst(v, numbers(p));
    return v;
}
static V judge(const std::string &text, J &j) {
    V v = Valid;
    if (text.find('\0') != text.npos || text.find("\\u") != text.npos) v = Either;
    if (v == Either) return v;
    for (unsigned char c : text)
        if (c >= 0x80) v = Either;
    if (!mj::parse(text, j)) return Invalid;
    v = worst(v, numbers(j));
    if (v == Invalid) return v;
    Judge g;
    return worst(v, g.judge(j));
}
static uint64_t nv[3];
static void check(const std::string &text, bool deep_compare) {
    mc::note(text.size() < 6000 ? text : text.substr(0, 6000));
    J j;
    auto v = judge(text, j);
    nv[v]++;
    auto path = mc::scratch() + "/t.json";
    {
        std::ofstream f(path);
        f << text;
    }
    auto p = hgdb::create_symbol_table(path);
    bool ok = p && !p->bad();
    mc::evaluation();
    mc::transition();
    auto h = mc::hash(text);
    mc::state(h);
    if (v != Either) {
        mc::nontrivial(h);
        mc::validated();
    }
    if (v == Invalid && ok) mc::fail("invalid symbol table is accepted: " + text);
    if (v == Valid && !ok) mc::fail("valid symbol table is rejected: " + text);
    // the other way in
    {
        hgdb::JSONSymbolTableProvider q;
        bool ok2 = q.parse(text);
        if (ok2 == q.bad()) mc::fail("the result of parsing differs from the provider's state: " + text);
        if (ok2 != ok) mc::fail("loading from text differs from loading from a file: " + text);
    }
    if (p) {
        // whatever was loaded can be queried; nothing if it was rejected
        auto o = p->execution_bp_orders();
        auto fn = p->get_filenames();
        if (!ok && (!o.empty() || !fn.empty() || !p->get_breakpoints("a.py", 1, 0).empty() || !p->get_instance_names().empty() || p->get_instance_id(std::string("top"))))
            mc::fail("a rejected symbol table answers queries: " + text);
        for (auto id : o) {
            (void)p->get_context_variables(id);
            (void)p->get_context_delayed_variables(id);
            (void)p->get_breakpoint(id);
        }
    }
    // (queries for variables without a name mean nothing)
    if (v == Valid && deep_compare && text.find("\"name\":\"\"") == text.npos) {
        refdb::Table ref(j);
        refdb::Opt op;
        op.what = "table " + text + ": ";
        refdb::Compare c(*p, ref, op);
        c.run();
    }
    mc::sample(text);
}

static J var(const char *n, const char *v, bool rtl = true) { return design::var(n, v, rtl); }
static J base(size_t i) {
    if (i == 0) {
        J d = var("x", "sx");
        d.set("type", "delay");
        d.set("depth", 2);
        J idx = J::obj({{"var", "r0"}, {"min", 0}, {"max", 3}});
        J a = J::obj({{"type", "assign"}, {"line", 3}, {"column", 2}, {"condition", "c"}, {"variable", var("y", "sy")}, {"indices", J::arr({idx})}});
        J r0 = var("i", "ii");
        r0.set("id", "r0");
        return J::obj({{"table", J::arr({J::obj({{"type", "module"}, {"name", "top"},
                                                 {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "a.py"}, {"scope", J::arr({
                                                                                                                        J::obj({{"type", "decl"}, {"line", 1}, {"variable", d}}),
                                                                                                                        a,
                                                                                                                        J::obj({{"type", "none"}, {"line", 4}}),
                                                                                                                    })}})})},
                                                 {"variables", J::arr({"r0", var("p", "4", false)})},
                                                 {"instances", J::arr({J::obj({{"name", "c"}, {"module", "sub"}})})}}),
                                         J::obj({{"type", "module"}, {"name", "sub"}, {"scope", J::arr()}, {"variables", J::arr()}})})},
                       {"top", "top"},
                       {"variables", J::arr({r0})}});
    }
    if (i == 1) {
        J in = J::obj({{"type", "block"}, {"condition", "u"}, {"line", 7}, {"scope", J::arr({J::obj({{"type", "assign"}, {"line", 2}, {"variable", "v1"}})})}});
        J v1 = var("z", "sz");
        v1.set("id", "v1");
        v1.set("type", "delay");
        return J::obj({{"generator", "g"}, {"reorder", false}, {"top", J::arr({"m", "n"})},
                       {"variables", J::arr({v1})},
                       {"attributes", J::arr({J::obj({{"name", "clock"}, {"value", "clk"}})})},
                       {"table", J::arr({J::obj({{"type", "module"}, {"name", "m"}, {"variables", J::arr()}, {"instances", J::arr({J::obj({{"name", "a"}, {"module", "o"}})})},
                                                 {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "/a/b.py"}, {"condition", "k"}, {"scope", J::arr({in})}})})}}),
                                         J::obj({{"type", "module"}, {"name", "n"}, {"variables", J::arr({var("q", "9", false)})}, {"instances", J::arr({J::obj({{"name", "a"}, {"module", "m"}})})}, {"scope", J::arr()}}),
                                         J::obj({{"type", "module"}, {"name", "o"}, {"variables", J::arr()}, {"instances", J::arr()},
                                                 {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "c.py"}, {"scope", J::arr({J::obj({{"type", "assign"}, {"line", 1}, {"variable", var("x", "x")}})})}})})}})})}});
    }
    // small: for pairs of changes and for every byte
    return J::obj({{"table", J::arr({J::obj({{"type", "module"}, {"name", "m"},
                                             {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "a"}, {"scope", J::arr({J::obj({{"type", "assign"}, {"line", 1}, {"variable", "r"}})})}})})},
                                             {"variables", J::arr()},
                                             {"instances", J::arr({J::obj({{"name", "c"}, {"module", "n"}})})}}),
                                     J::obj({{"type", "module"}, {"name", "n"}, {"scope", J::arr()}, {"variables", J::arr()}})})},
                   {"top", "m"},
                   {"variables", J::arr({J::obj({{"id", "r"}, {"name", "x"}, {"value", "y"}, {"rtl", true}})})}});
}
// ---- structural changes: every node replaced, removed, doubled, renamed ----
static const std::vector<J> &values() {
    static const std::vector<J> v = [] {
        std::vector<J> r = {J(), J(true), J(false), J(0), J(1), J(-1), J(2), J::raw("1.5"), J::raw("4294967295"), J::raw("4294967296"),
                            J::raw("99999999999999999999"), J::raw("-2147483649"), J(""), J("x"), J("top"), J("sub"), J("m"), J("n"), J("o"), J("r0"), J("v1"), J("r"),
                            J("module"), J("block"), J("assign"), J("decl"), J("none"), J("delay"), J::arr(), J::obj(), J::arr({J(1)}), J::arr({J("x")}), J::arr({J("m")}), J::arr({J::obj()}),
                            J::obj({{"name", "x"}, {"value", "y"}, {"rtl", true}}),
                            J::obj({{"name", "x"}, {"value", "y"}}),
                            J::obj({{"type", "none"}}),
                            J::obj({{"type", "block"}, {"scope", J::arr()}}),
                            J::arr({J::obj({{"type", "block"}, {"scope", J::arr()}, {"filename", "f"}})}),
                            J::obj({{"type", "module"}, {"name", "q"}, {"scope", J::arr()}, {"variables", J::arr()}}),
                            J::obj({{"type", "module"}, {"name", "q"}, {"scope", J::arr()}, {"variables", J::arr()}, {"instances", J::arr({J::obj({{"name", "e"}, {"module", "m"}})})}}),
                            J::obj({{"name", "e"}, {"module", "m"}}),
                            J::arr({J::obj({{"name", "e"}, {"module", "m"}})}),
                            J::arr({J::obj({{"name", "e"}, {"module", "n"}})}),
                            J::arr({J::obj({{"name", "e"}, {"module", "top"}})}),
                            J::arr({J::obj({{"name", "e"}, {"module", "none"}})})};
        return r;
    }();
    return v;
}
static void collect(J &j, std::vector<J *> &out) {
    out.push_back(&j);
    for (auto &p : j.o) collect(p.second, out);
    for (auto &p : j.a) collect(p, out);
}
// number of changes of a table, and the i-th
static size_t per_node() { return values().size() + 6; }
static size_t changes(const J &t) {
    J c = t;
    std::vector<J *> n;
    collect(c, n);
    return n.size() * per_node();
}
static J change(const J &t, size_t i) {
    J c = t;
    std::vector<J *> n;
    collect(c, n);
    auto &x = *n[i / per_node() % n.size()];
    auto k = i % per_node();
    if (k < values().size()) {
        J v = values()[k];
        x = v;
        return c;
    }
    k -= values().size();
    // changes of the children
    if (x.t == J::Obj) {
        if (k == 0 && !x.o.empty()) x.o.erase(x.o.begin());
        if (k == 1 && x.o.size() > 1) x.o.erase(x.o.begin() + 1);
        if (k == 2 && x.o.size() > 2) x.o.erase(x.o.begin() + 2);
        if (k == 3 && x.o.size() > 3) x.o.erase(x.o.begin() + 3);
        if (k == 4 && !x.o.empty()) x.o.pop_back();
        if (k == 5) x.o.emplace_back("unknown", J(1));
    } else if (x.t == J::Arr) {
        if (k == 0 && !x.a.empty()) x.a.erase(x.a.begin());
        if (k == 1 && !x.a.empty()) x.a.pop_back();
        if (k == 2 && !x.a.empty()) x.a.push_back(x.a[0]);
        if (k == 3) x.a.push_back(J());
        if (k == 4) std::reverse(x.a.begin(), x.a.end());
        if (k == 5 && !x.a.empty()) x.a.push_back(x.a.back());
    }
    return c;
}
static const char BYTES[] = {'{', '}', '[', ']', '"', ',', ':', '\\', '0', '9', '-', '.', 'e', 't', ' ', '\n', '\x01', '\x80', '\xff', '\0'};
static void bytes(size_t b, size_t part, size_t parts) {
    auto text = base(b).dump();
    for (size_t i = part; i < text.size(); i += parts) {
        check(text.substr(0, i), false);
        auto t = text;
        t.erase(i, 1);
        check(t, false);
        for (auto c : BYTES) {
            if (!mc::thorough() && b != 2 && (unsigned char)c % 3 == 1) continue;
            t = text;
            t[i] = c;
            check(t, false);
            if (b == 2 || mc::thorough()) {
                t = text;
                t.insert(i, 1, c);
                check(t, false);
            }
        }
    }
    if (part == 0) {
        for (auto *s : {"", " ", "\n", "x", "{}", "}", "]", ",", "null"}) check(text + s, false);
        for (auto *s : {" ", "x", "[", "\xef\xbb\xbf", "{"}) check(s + text, false);
        for (auto *s : {"", "null", "true", "0", "\"x\"", "[]", "{}", "SQLite format 3", "SQLite format 3\n", "{\"table\":[],\"top\":[]}", "{\"table\":[],\"top\":\"\"}"}) check(s, false);
    }
}
// ---- nesting ----
static void nesting(size_t i) {
    static const size_t N[] = {1, 10, 100, 300, 3000, 30000, 300000};
    auto n = N[i % 7];
    auto kind = i / 7;
    std::string open, close, pre, post;
    if (kind == 0) {
        open = "{\"type\":\"block\",\"scope\":[";
        close = "]}";
        pre = "{\"table\":[{\"type\":\"module\",\"name\":\"m\",\"variables\":[],\"scope\":[{\"type\":\"block\",\"filename\":\"a\",\"scope\":[";
        post = "]}]}],\"top\":\"m\"}";
    } else if (kind == 1) {
        open = "[";
        close = "]";
    } else if (kind == 2) {
        open = "{\"a\":";
        close = "}";
        pre = "{\"x\":";
        post = "}";
    } else if (kind == 3) {
        open = "[";  // never closed
    } else {
        open = "{\"type\":\"block\",\"scope\":[";
        pre = "{\"table\":[{\"type\":\"module\",\"name\":\"m\",\"variables\":[],\"scope\":[";
    }
    std::string t = pre;
    for (size_t k = 0; k < n; k++) t += open;
    if (kind == 2) t += "1";
    if (kind == 0) t += "{\"type\":\"none\",\"line\":5}";
    for (size_t k = 0; k < n; k++) t += close;
    t += post;
    auto path = mc::scratch() + "/t.json";
    {
        std::ofstream f(path);
        f << t;
    }
    mc::note("nesting " + std::to_string(kind) + " " + std::to_string(n));
    auto p = hgdb::create_symbol_table(path);
    bool ok = p && !p->bad();
    mc::validated();
    mc::transition();
    mc::state(mc::hash(t));
    if (kind == 0 && n <= 300 && (!ok || p->get_breakpoints("a", 5, 0).size() != 1)) mc::fail("valid table with " + std::to_string(n) + " nested blocks is rejected");
    if ((kind || n >= 30000) && ok) mc::fail("nested " + std::to_string(n) + " deep is accepted");
    hgdb::JSONSymbolTableProvider q;
    if (q.parse(t) != ok) mc::fail("loading from text differs from loading from a file");
}
// a chain of modules as long as that, with and without a cycle; many children
static void chain(size_t i) {
    static const int N[] = {2, 50, 400};
    auto n = N[i % 3];
    auto kind = i / 3;
    J tb = J::arr();
    for (int k = 0; k < n; k++) {
        J ins = J::arr();
        if (k + 1 < n) ins.push(J::obj({{"name", "c"}, {"module", "m" + std::to_string(k + 1)}}));
        if (k + 1 == n && kind == 1) ins.push(J::obj({{"name", "c"}, {"module", "m" + std::to_string(n / 2)}}));
        if (k + 1 == n && kind == 2) ins.push(J::obj({{"name", "c"}, {"module", "missing"}}));
        tb.push(J::obj({{"type", "module"}, {"name", "m" + std::to_string(k)}, {"variables", J::arr()}, {"instances", ins}, {"scope", J::arr()}}));
    }
    if (kind == 3) tb.push(J::obj({{"type", "module"}, {"name", "z"}, {"variables", J::arr()}, {"instances", J::arr({J::obj({{"name", "c"}, {"module", "z"}})})}, {"scope", J::arr()}}));
    if (kind == 4) tb.push(tb.a[(size_t)n / 2]);
    J t = J::obj({{"table", tb}, {"top", "m0"}});
    check(t.dump(), n < 100);
}
// ---- through the debugger ----
static void connect(size_t i) {
    auto kit = design::kit1(1);
    world::World w;
    design::bench1(w, kit);
    w.create();
    w.start();
    w.open(1);
    auto good = kit.table;
    std::string bad = mc::scratch() + "/bad.json";
    auto write = [&](const std::string &s) {
        std::ofstream f(bad);
        f << s;
    };
    auto edited = [&](const std::function<void(J &)> &f) {
        J t = good;
        f(t);
        write(t.dump());
    };
    std::error_code ec;
    std::filesystem::remove(bad, ec);
    switch (i % 16) {
        case 0: break;  // missing
        case 1: bad = mc::scratch(); break;
        case 2: write(""); break;
        case 3: write("{"); break;
        case 4: write("[]"); break;
        case 5: write(std::string(100000, '[')); break;
        case 6: edited([](J &t) { t.erase("top"); }); break;
        case 7: edited([](J &t) { t.set("top", "nope"); }); break;
        case 8: edited([](J &t) { (*t.find("table")).a.pop_back(); }); break;   // child is missing
        case 9: edited([](J &t) { auto m = t["table"].a[1]; t.find("table")->push(m); }); break;
        case 10: edited([](J &t) { t.find("table")->a[1].set("instances", J::arr({J::obj({{"name", "r"}, {"module", "dut"}})})); }); break;
        case 11: edited([](J &t) { t.find("table")->a[0].find("scope")->a[0].find("scope")->a[0].set("variable", "dangling"); }); break;
        case 12: edited([](J &t) { t.find("table")->a[0].find("scope")->a[0].find("scope")->a[0].set("line", J::raw("4294967296")); }); break;
        case 13: write("SQLite format 3"); break;
        case 14: bad = ""; break;
        case 15: edited([](J &t) { t.find("table")->a[0].find("scope")->a[0].erase("filename"); }); break;
    }
    mc::note("connecting with bad file " + std::to_string(i % 16) + " mode " + std::to_string(i / 16));
    auto refuse = [&] {
        auto e = w.send(1, world::r_connect(bad));
        if (model::status(e) != "error") mc::fail("connecting with a malformed symbol table is answered with '" + model::status(e) + "'");
    };
    model::Ref ref(w, kit);
    // before, between or after valid connections; in each case a valid one works
    auto mode = i / 16;
    if (mode == 0) refuse();
    if (mode == 1) {
        model::must(w, world::r_connect(kit.path));
        model::must(w, world::r_bp("add", "dut.py", 2));
        refuse();
    }
    if (mode == 2) {
        refuse();
        refuse();
        model::must(w, world::r_connect(kit.path));
        refuse();
    }
    model::must(w, world::r_connect(kit.path));
    auto s = ref.at("dut.py", 1);
    model::must(w, world::r_bp("add", "dut.py", 1));
    ref.insert(*s[0], model::uc_true());
    ref.go();
    bool p = ref.edge({});
    if (!p) mc::fail("no pause after connecting");
    if (ref.resume(model::Cont)) mc::fail("pauses again");
    mc::nontrivial(i);
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C17";
    const size_t parts = 32;
    size_t n1 = 48, n2 = 35, n3 = 15, n4 = 3 * parts, n5 = 3 * parts;
    c.tops = [=] { return n1 + n2 + n3 + n4 + n5; };
    c.body = [=](size_t t) {
        if (t < n1) return connect(t);
        t -= n1;
        if (t < n2) return nesting(t);
        t -= n2;
        if (t < n3) return chain(t);
        t -= n3;
        if (t < n4) return bytes(t / parts, t % parts, parts);
        t -= n4;
        auto b = base(t / parts);
        auto n = changes(b);
        for (size_t i = t % parts; i < n; i += parts) {
            J c1 = change(b, i);
            if (c1 == b) continue;
            check(c1.dump(), true);
            if (mc::thorough() && t / parts == 2) {
                auto n2c = changes(c1);
                for (size_t k = i / per_node() * per_node(); k < n2c; k += 1 + (k % 5)) {
                    J c2 = change(c1, k);
                    if (c2 == c1) continue;
                    check(c2.dump(), false);
                }
            }
        }
        mc::counter("valid", nv[Valid]);
        mc::counter("invalid", nv[Invalid]);
        mc::counter("undecided", nv[Either]);
        nv[0] = nv[1] = nv[2] = 0;
    };
    return mc::main_(argc, argv, c);
}
