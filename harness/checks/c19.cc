// C19: every set of path mappings over a family of difficult paths, in both directions, against a
// mapping of component lists; and the same through the debugger in every order of requests.
// build: plain
#include "db.hh"
#include "model.hh"
using namespace model;
using Map = std::map<std::string, std::string>;

// a path as its components; absolute ones start with "/"
static std::vector<std::string> comps(const std::string &p) {
    std::vector<std::string> r;
    if (!p.empty() && p[0] == '/') r.push_back("/");
    std::string c;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i < p.size() && p[i] != '/') {
            c += p[i];
            continue;
        }
        if (c == "..") {
            if (r.size() && r.back() == "/") {
            } else if (r.size() && r.back() != "..")
                r.pop_back();
            else
                r.push_back("..");
        } else if (!c.empty() && c != ".")
            r.push_back(c);
        c.clear();
    }
    return r;
}
static std::string join(const std::vector<std::string> &c) {
    std::string s;
    for (size_t i = 0; i < c.size(); i++) {
        if (i && s != "/") s += "/";
        s += c[i];
    }
    return s;
}
// possible results (several prefixes of the same length may match)
static std::set<std::string> expect(const std::vector<std::pair<std::string, std::string>> &m, const std::string &t) {
    auto tc = comps(t);
    std::set<std::string> r;
    long best = -1;
    for (auto &[from, to] : m) {
        auto f = comps(from);
        bool abs = !tc.empty() && tc[0] == "/";
        if (f.empty() && abs) continue;
        if (f.size() > tc.size() || !std::equal(f.begin(), f.end(), tc.begin())) continue;
        if ((long)f.size() < best) continue;
        if ((long)f.size() > best) r.clear();
        best = (long)f.size();
        auto x = comps(to);
        x.insert(x.end(), tc.begin() + (long)f.size(), tc.end());
        r.insert(join(x));
    }
    if (best < 0) r.insert(t);
    return r;
}
static std::vector<std::pair<std::string, std::string>> to_db(const Map &m) { return {m.begin(), m.end()}; }
static std::vector<std::pair<std::string, std::string>> to_client(const Map &m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &p : m) r.emplace_back(p.second, p.first);
    return r;
}
static std::string text(const Map &m) {
    std::string s = "{";
    for (auto &p : m) s += "'" + p.first + "'->'" + p.second + "' ";
    return s + "}";
}
static const std::vector<std::string> PRE = {"", "/", "/a", "/ab", "/a/b", "/a/", "a", "a/b", "b", "/a/b/c", "/a/./b", "/b/../a", "//a", ".", "a/.."};
static const std::vector<std::string> TGT = {"x.py", "a/x.py", "ab/x.py", "a/b/x.py", "b/x.py", "/x.py", "/a/x.py", "/ab/x.py", "/a/b/x.py", "/a/b/c/x.py", "/a/bc/x.py", "/a", "/a/b", "a", "/c/a/x.py", "/a/./x.py", "/a/../a/b/x.py", "/a/b/../x.py", "./a/x.py", "/A/x.py", "a.py", "/a.py", "/a b/x.py"};
static void api(hgdb::JSONSymbolTableProvider &p, const Map &m) {
    p.set_src_mapping(m);
    for (auto &t : TGT) {
        mc::evaluation();
        auto d = p.resolve_filename_to_db(t);
        auto e = expect(to_db(m), t);
        if (!e.count(d)) mc::fail("with mapping " + text(m) + " the client's " + t + " becomes '" + d + "' instead of '" + *e.begin() + "'");
        auto c = p.resolve_filename_to_client(t);
        e = expect(to_client(m), t);
        if (!e.count(c)) mc::fail("with mapping " + text(m) + " the symbol table's " + t + " becomes '" + c + "' instead of '" + *e.begin() + "'");
        mc::validated(2);
        // there and back
        if (m.size() == 1) {
            auto &f = *m.begin();
            bool moved = expect(to_db(m), t) != std::set<std::string>{t} || comps(f.first) == comps(f.second);
            if (moved && !(comps(f.second).empty() && comps(f.first).size() && comps(f.first)[0] == "/" && false)) {
                auto back = p.resolve_filename_to_client(d);
                bool under = expect(to_client(m), d) != std::set<std::string>{d};
                if (under && comps(back) != comps(t)) mc::fail("with mapping " + text(m) + " " + t + " becomes " + d + " and comes back as " + back);
            }
        }
    }
    mc::transition();
    mc::state(mc::hash(text(m)));
    mc::nontrivial(mc::hash(text(m)));
}
static void api_top(size_t top) {
    hgdb::JSONSymbolTableProvider p;
    Map m;
    auto &a = PRE[top];
    m = {};
    if (top == 0) api(p, m);
    for (auto &b : PRE) {
        m = {{a, b}};
        api(p, m);
        for (auto &c : PRE)
            for (auto &d : PRE) {
                if (c <= a) continue;
                m = {{a, b}, {c, d}};
                api(p, m);
                if (!mc::thorough()) continue;
                for (auto &e : {"/z", "a/b/c", "/a/b/c/d", "/ab/c"})
                    for (auto &f : {"/q", "", "/a"}) {
                        auto m3 = m;
                        m3[e] = f;
                        api(p, m3);
                    }
            }
    }
}
// ---- through the debugger ----
static void replace(J &j, const std::string &from, const std::string &to) {
    if (j.t == J::Str && j.s == from) j.s = to;
    for (auto &x : j.a) replace(x, from, to);
    for (auto &x : j.o) replace(x.second, from, to);
}
static const std::vector<Map> MAPS = {
    {},
    {{"/client", "/db"}},
    {{"/client/src", "/db/src"}, {"/client", "/other"}},
    {{"/client", "/db"}, {"/client/lib", "lib"}},
    {{"/w", ""}},
    {{"/w", ""}, {"/v/", "/db/src/"}},
    {{"", "lib"}},
    {{"", "/db/src"}},
    {{"/d", "/d"}, {"/dbx", "/db"}},
    {{"/db", "/elsewhere"}},
    {{"/db/src", "/db/s"}, {"/x", "/db/sr"}},
};
static const std::vector<std::string> ASK = {"/db/src/dut.py", "lib/child.py", "dut.py", "child.py", "/client/src/dut.py", "/client/lib/child.py", "/clients/src/dut.py", "/w/lib/child.py", "/w/child.py", "/v/dut.py", "/dbx/src/dut.py", "/x/dut.py", "src/dut.py", "/other/lib/child.py", "/client/dut.py"};
static void dbg(size_t top) {
    // files of the symbol table
    size_t fm = top % 2, first = top / 2 % MAPS.size(), second = (size_t)mc::choose((int)MAPS.size() + 1);
    int when = mc::choose(3);  // first mapping: with the connection / afterwards / after inserting
    auto kit = design::kit1(1);
    std::string f0 = "/db/src/dut.py", f1 = fm ? "lib/child.py" : "/db/lib/child.py";
    replace(kit.table, "dut.py", f0);
    replace(kit.table, "child.py", f1);
    kit.path = design::write_table(kit.table);
    for (auto &s : kit.stmts) s.file = s.file == "dut.py" ? f0 : f1;
    design::number(kit);
    World w;
    design::bench1(w, kit);
    w.create();
    w.start();
    w.open(1);
    Map m;
    auto j = [](const Map &x) {
        J r = J::obj();
        for (auto &p : x) r.set(p.first, p.second);
        return r;
    };
    if (model::status(w.send(1, world::request("path-mapping", J::obj({{"path-mapping", j(MAPS[1])}})))) != "error") mc::fail("a path mapping is accepted without a symbol table");
    auto set = [&](const Map &x) {
        must(w, world::request("path-mapping", J::obj({{"path-mapping", j(x)}})));
        m = x;
    };
    if (when == 0) {
        must(w, world::r_connect(kit.path, j(MAPS[first])));
        m = MAPS[first];
    } else
        must(w, world::r_connect(kit.path));
    if (when == 1) set(MAPS[first]);
    Ref ref(w, kit);
    // names the client may see for a file of the symbol table
    auto seen = [&](const std::string &f) { return expect(to_client(m), f); };
    auto check_name = [&](const std::string &got, const std::string &f, const char *what) {
        if (!seen(f).count(got)) mc::fail(std::string(what) + " names " + got + " instead of " + *seen(f).begin() + " with mapping " + text(m));
        mc::validated();
    };
    auto matches = [&](const std::string &ask, const std::string &f) {
        for (auto &d : expect(to_db(m), ask)) {
            auto a = comps(d), b = comps(f);
            if (a == b) return true;
            if (f[0] != '/' && a.size() > b.size() && std::equal(b.rbegin(), b.rend(), a.rbegin())) return true;
        }
        return false;
    };
    auto ask_all = [&] {
        mc::evaluation();
        for (auto &a : ASK) {
            auto e = w.send(1, world::request("bp-location", J::obj({{"filename", a}})));
            if (e.size() != 1) mc::fail("no reply to a location request");
            size_t want = 0, got = e[0].msg["payload"].a.size();
            if (matches(a, f0)) want += 4;
            if (matches(a, f1)) want += 4;
            if (got != want) mc::fail("with mapping " + text(m) + " " + std::to_string(got) + " locations are found in " + a + ", expected " + std::to_string(want));
            for (auto &x : e[0].msg["payload"].a) {
                auto *s = kit.by_id((uint32_t)x["id"].u());
                if (!s) mc::fail("unknown location id");
                check_name(x["filename"].s, s->file, "location");
            }
        }
        auto e = w.send(1, world::r_info("filename"));
        auto &fs = e[0].msg["payload"]["filenames"].a;
        if (fs.size() != 2) mc::fail("wrong number of file names");
        for (auto &f : {f0, f1}) {
            bool ok = false;
            for (auto &x : fs) ok = ok || seen(f).count(x.s);
            if (!ok) mc::fail("file name " + *seen(f).begin() + " is missing with mapping " + text(m));
        }
        e = w.send(1, world::r_info("breakpoints"));
        auto &bs = e[0].msg["payload"]["breakpoints"].a;
        if (bs.size() != ref.bps.size()) mc::fail("wrong number of breakpoints");
        for (auto &x : bs) check_name(x["filename"].s, kit.by_id((uint32_t)x["id"].u())->file, "breakpoint");
    };
    auto insert = [&](const std::string &f, int line) {
        // every way the client can name it
        for (auto &a : ASK) {
            if (!matches(a, f)) continue;
            must(w, world::r_bp("add", a, (uint64_t)line));
            for (auto *s : ref.at(f, (uint32_t)line)) ref.insert(*s, uc_true());
            return;
        }
        // always found by id
        for (auto *s : ref.at(f, (uint32_t)line)) {
            must(w, world::r_bpid("add", s->id));
            ref.insert(*s, uc_true());
        }
    };
    insert(f0, 1);
    if (when == 2) set(MAPS[first]);
    insert(f1, 11);
    for (auto &a : ASK)
        if (!matches(a, f0) && !matches(a, f1)) must(w, world::r_bp("add", a, 1), "error");
    ask_all();
    if (second < MAPS.size()) {
        set(MAPS[second]);
        ask_all();
    }
    ref.go();
    auto run = [&] {
        auto n = w.evs.size();
        ref.new_edge();
        w.edge();
        int guard = 0;
        std::vector<std::string> files;
        while (w.paused() && guard++ < 10) {
            for (; n < w.evs.size(); n++)
                if (design::is_hit(w.evs[n].msg)) {
                    auto h = design::parse_hit(w.evs[n].msg);
                    auto *s = kit.by_id(h.scopes.at(0).bp_id);
                    if (!s) mc::fail("unknown breakpoint hit");
                    check_name(h.file, s->file, "hit");
                    files.push_back(s->file);
                }
            w.send(1, world::r_cmd("continue"));
        }
        std::sort(files.begin(), files.end());
        return files;
    };
    auto got = run();
    std::vector<std::string> want;
    for (auto &e : ref.bps)
        if (want.empty() || want.back() != kit.by_id(e.id)->file) want.push_back(kit.by_id(e.id)->file);
    std::sort(want.begin(), want.end());
    if (got != want) mc::fail("wrong hits with mapping " + text(m));
    // removed under whatever name it can be found by now
    for (auto &a : ASK)
        if (matches(a, f0)) {
            must(w, world::r_bp("remove", a, 1));
            got = run();
            for (auto &g : got)
                if (g == f0) mc::fail("breakpoint removed as " + a + " still hits with mapping " + text(m));
            mc::nontrivial(mc::hash(a + text(m)));
            break;
        }
    mc::state(mc::hash(text(m) + std::to_string(first * 3 + (size_t)when) + "d"));
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C19";
    c.tops = [] { return PRE.size() + 2 * MAPS.size(); };
    c.body = [](size_t t) {
        if (t < PRE.size()) return api_top(t);
        dbg(t - PRE.size());
    };
    return mc::main_(argc, argv, c);
}
