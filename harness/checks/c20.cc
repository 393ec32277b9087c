// C20: every test bench hierarchy up to the bound: which copies of the design are found, under
// which namespace, and whether reports, evaluations and set-value stay within their copy.
// build: plain
#include "model.hh"
using namespace model;

static J assign(const char *n, int line, const char *cond = nullptr) { return design::assign(n, n, line, 0, cond); }
static J module(const char *name, const char *file, const J &st, const J &insts) {
    return J::obj({{"type", "module"}, {"name", name},
                   {"scope", J::arr({J::obj({{"type", "block"}, {"filename", file}, {"scope", st}})})},
                   {"variables", J::arr({design::var("g", "x")})}, {"instances", insts}});
}
static J table(bool two) {
    J c0 = J::arr({J::obj({{"name", "c0"}, {"module", "child"}})});
    J t = J::obj({{"table", J::arr({module("dut", "dut.py", J::arr({assign("x", 1), assign("x", 2, "en")}), c0),
                                    module("child", "child.py", J::arr({assign("x", 5), assign("x", 6, "en")}), J::arr()),
                                    module("ip", "ip.py", J::arr({assign("x", 8), assign("x", 9, "en")}), c0)})}});
    if (two) t.set("top", J::arr({"dut", "ip"}));
    else t.set("top", "dut");
    return t;
}
struct Node {
    int parent;  // -1: a root
    int def;     // 0 wrap, 1 dut, 2 ip
    std::string name, full;
};
static const char *DEF[] = {"wrap", "dut", "ip"};

struct Case {
    World &w;
    std::vector<std::pair<std::string, std::string>> copies;  // definition, full name
    std::map<std::pair<std::string, std::string>, uint32_t> ns;

    void add_design(const std::string &full) {
        auto &v = *w.vpi;
        for (auto *s : {"clk", "en", "x"}) v.add_signal(full + "." + s, s[0] == 'x' ? 16 : 1);
        v.add_module("child", full + ".c0");
        for (auto *s : {"clk", "en", "x"}) v.add_signal(full + ".c0." + s, s[0] == 'x' ? 16 : 1);
    }
    void find_ns() {
        auto evs = w.send(1, world::r_info("design"));
        if (status(evs) != "success") mc::fail("no design information");
        std::set<std::pair<std::string, std::string>> got, want(copies.begin(), copies.end());
        std::set<uint64_t> idset;
        for (auto &d : evs.back().msg["payload"]["design"].o)
            for (auto &f : d.second.o) {
                if (d.first.empty() && copies.empty()) continue;  // the default namespace
                got.insert({d.first, f.first});
                ns[{d.first, f.first}] = (uint32_t)f.second.u();
                if (!idset.insert(f.second.u()).second) mc::fail("two copies share a namespace id");
            }
        if (got != want) {
            std::string s, x;
            for (auto &g : got) s += g.first + "=" + g.second + " ";
            for (auto &g : want) x += g.first + "=" + g.second + " ";
            mc::fail("the copies found are {" + s + "}, the test bench has {" + x + "}");
        }
        for (auto i : idset)
            if (i >= copies.size()) mc::fail("namespace id " + std::to_string(i) + " out of range");
    }
    uint64_t val(const std::string &sig) { return w.vpi->get(sig); }
    void values(int bits) {
        int n = 0;
        uint64_t k = 100 + (uint64_t)bits * 1000;
        for (auto &c : copies)
            for (auto *i : {"", ".c0"}) {
                w.vpi->set(c.second + i + ".en", bits >> (n++ % 4) & 1);
                w.vpi->set(c.second + i + ".x", k++);
            }
    }
    // evaluations and set-value in every copy
    void access(const std::map<std::string, uint32_t> &inst_ids, const std::map<std::string, std::vector<uint32_t>> &bp_ids) {
        for (auto &c : copies)
            for (auto *i : {"", ".c0"})
                for (int by = 0; by < 3; by++) {
                    auto inst = c.first + i;
                    J p = J::obj({{"namespace_id", ns.at(c)}, {"expression", by == 2 ? inst + ".x" : std::string("x + 1")}});
                    if (by == 0) p.set("instance_id", inst_ids.at(inst));
                    if (by == 1) p.set("breakpoint_id", bp_ids.at(inst)[0]);
                    auto evs = w.send(1, world::request("evaluation", p));
                    auto want = std::to_string(val(c.second + i + ".x") + (by == 2 ? 0 : 1));
                    if (status(evs) != "success") mc::fail("evaluation in " + c.second + i + " fails: " + evs.back().text);
                    auto got = evs.back().msg["payload"]["result"].str();
                    if (got != want) mc::fail("evaluation in " + c.second + i + " gives " + got + " instead of " + want);
                    mc::validated();
                    // write
                    auto before = w.vpi->values();
                    uint64_t nv = 5000 + (before.at(c.second + i + ".x") * 7 + (uint64_t)by) % 1000;
                    p = J::obj({{"namespace_id", ns.at(c)}, {"var_name", by == 2 ? inst + ".x" : std::string("x")}, {"value", nv}});
                    if (by == 0) p.set("instance_id", inst_ids.at(inst));
                    if (by == 1) p.set("breakpoint_id", bp_ids.at(inst)[1]);  // x is visible there
                    evs = w.send(1, world::request("set-value", p));
                    bool ok = status(evs) == "success";
                    auto exp = before;
                    if (ok) exp[c.second + i + ".x"] = nv;
                    if (w.vpi->values() != exp) mc::fail("set-value in " + c.second + i + " changed something else");
                    // by instance: only the generator variables are names of the instance
                    if (!ok && by != 0) mc::fail("set-value in " + c.second + i + " fails: " + evs.back().text);
                    if (!ok) {
                        p.set("var_name", "g");
                        evs = w.send(1, world::request("set-value", p));
                        exp[c.second + i + ".x"] = nv;
                        if (status(evs) != "success" || w.vpi->values() != exp) mc::fail("set-value in instance " + c.second + i + " does not write it");
                    }
                }
    }
    // breakpoints everywhere, an edge
    void edges() {
        for (int bits : {0x5, 0xa, 0xc}) {
            values(bits);
            auto evs = w.edge();
            std::map<std::string, int> seen;
            for (int n = 0; w.paused(); n++) {
                auto hs = Ref::hits_in(evs);
                if (hs.size() != 1 || n > 100) mc::fail("pauses without exactly one report each");
                for (auto &sc : hs[0].scopes) {
                    std::string where;
                    for (auto &c : copies)
                        for (auto *i : {"", ".c0"})
                            if (sc.inst_name == c.second + i && ns.at(c) == sc.ns_id &&
                                hs[0].file == (*i ? "child.py" : c.first + ".py"))
                                where = sc.inst_name;
                    if (where.empty()) mc::fail("report of " + sc.inst_name + " in namespace " + std::to_string(sc.ns_id) + ": " + design::show(hs[0]));
                    seen[where + ":" + std::to_string(hs[0].line)]++;
                    auto v = std::to_string(val(where + ".x"));
                    if (!sc.gen.count("g") || sc.gen.at("g") != v) mc::fail("report of " + where + " shows g=" + (sc.gen.count("g") ? sc.gen.at("g") : "nothing") + ", the signal is " + v);
                    if (sc.local.count("x") && sc.local.at("x") != v) mc::fail("report of " + where + " shows x=" + sc.local.at("x") + ", the signal is " + v);
                    mc::validated();
                }
                evs = w.send(1, world::r_cmd("continue"));
            }
            std::map<std::string, int> want;
            for (auto &c : copies) {
                int l = c.first == "dut" ? 1 : 8;
                want[c.second + ":" + std::to_string(l)] = 1;
                if (val(c.second + ".en")) want[c.second + ":" + std::to_string(l + 1)] = 1;
                want[c.second + ".c0:5"] = 1;
                if (val(c.second + ".c0.en")) want[c.second + ".c0:6"] = 1;
            }
            if (seen != want) {
                std::string s, x;
                for (auto &p : seen) s += p.first + " ";
                for (auto &p : want) x += p.first + " ";
                mc::fail("hits {" + s + "} instead of {" + x + "}");
            }
        }
    }
    void run(bool two, bool with_edges) {
        w.create();
        w.start();
        w.open(1);
        auto path = design::write_table(table(two));
        std::map<std::string, uint32_t> inst_ids;
        std::map<std::string, std::vector<uint32_t>> bp_ids;
        {
            auto p = hgdb::create_symbol_table(path);
            for (auto &n : p->get_instance_names()) inst_ids[n] = (uint32_t)*p->get_instance_id(n);
            for (auto b : p->execution_bp_orders()) bp_ids[*p->get_instance_name_from_bp(b)].push_back(b);
        }
        must(w, world::r_connect(path));
        find_ns();
        values(3);
        access(inst_ids, bp_ids);
        if (!with_edges) return;
        std::set<std::string> defs;
        for (auto &c : copies) defs.insert(c.first);
        for (auto *d : {"dut", "ip"}) {
            if (!two && d[0] == 'i') continue;
            for (int k = 0; k < 2; k++)
                must(w, world::r_bp("add", std::string(d) + ".py", (d[0] == 'd' ? 1u : 8u) + (unsigned)k), defs.count(d) ? "success" : "error");
        }
        for (unsigned k = 5; k < 7; k++) must(w, world::r_bp("add", "child.py", k), copies.empty() ? "error" : "success");
        w.send(1, world::r_cmd("continue"));
        if (!w.idle()) mc::fail("the simulation does not start");
        edges();
    }
};

static const int MAXN = 5;
static void tree(size_t top) {
    bool two = top & 1;
    int style = (int)(top >> 1) % 3;
    int n = 1 + (int)(top / 6) % (mc::thorough() ? MAXN + 1 : MAXN);
    World w;
    Case c{w, {}, {}};
    std::vector<Node> nodes;
    std::string text;
    // a root instance has the name of its definition; the design itself may be a root
    std::set<std::string> names;
    for (int i = 0; i < n; i++) {
        Node x;
        x.parent = i == 0 ? -1 : mc::choose(i + (i == 1 ? 1 : 0)) - (i == 1 ? 1 : 0);
        x.def = i == 0 ? 0 : mc::choose(two ? 3 : 2);
        if (i && x.parent == -1) x.def = 0;
        static const char *STY[3][6] = {{"tb", "i1", "i10", "i100", "i", "i1_0"},
                                        {"bench", "wrap", "dut", "c1", "ip", "dut"},
                                        {"TOP", "c", "a", "A", "zz", "b"}};
        x.name = STY[style][i];
        if (i == 1 && x.parent == -1) x.name = "tb2";
        if (i == 0 && style == 1 && n > 1 && mc::choose(2)) {
            x.name = "dut";
            x.def = 1;
        }
        // no recursion
        if (x.def == 1 && x.parent >= 0 && nodes[0].def == 1) {
            int r = x.parent;
            while (nodes[(size_t)r].parent >= 0) r = nodes[(size_t)r].parent;
            if (r == 0) x.def = 0;
        }
        x.full = x.parent < 0 ? x.name : nodes[(size_t)x.parent].full + "." + x.name;
        while (!names.insert(x.full).second) {
            x.full += "_";
            x.name += "_";
        }
        text += DEF[x.def] + std::string(" ") + x.full + ", ";
        nodes.push_back(x);
    }
    mc::trace(text);
    for (auto &x : nodes) {
        w.vpi->add_module(DEF[x.def], x.full);
        if (x.def == 1 || (x.def == 2 && two)) c.copies.emplace_back(DEF[x.def], x.full);
        c.add_design(x.full);
    }
    // breadth first: the clock of the first copy
    std::string clk;
    size_t best = 99;
    std::vector<int> order;  // BFS
    for (int i = 0; i < n; i++)
        if (nodes[(size_t)i].parent < 0) order.push_back(i);
    for (size_t q = 0; q < order.size(); q++)
        for (int i = 0; i < n; i++)
            if (nodes[(size_t)i].parent == order[q]) order.push_back(i);
    for (size_t q = 0; q < order.size(); q++) {
        auto &x = nodes[(size_t)order[q]];
        if (best == 99 && (x.def == 1 || (x.def == 2 && two))) {
            best = q;
            clk = x.full + ".clk";
        }
    }
    w.cfg.clk = clk.empty() ? nodes[0].full + ".clk" : clk;
    c.run(two, true);
    mc::evaluation();
    mc::nontrivial(mc::hash(text + (two ? "2" : "")));
    mc::state(mc::hash(text));
    mc::sample(text);
}
// simulators without definition names: the design is once right below the root
static void nodef(size_t top) {
    world::Cfg cfg;
    cfg.defname = false;
    bool veri = top & 1;
    if (veri) cfg.product = "Verilator";
    World w(cfg);
    Case c{w, {}, {}};
    std::string full;
    auto shape = mc::choose(3);
    auto name = std::vector<const char *>{"dut", "d", "wrap"}[(size_t)mc::choose(3)];
    if (veri && shape == 0) {
        // the root has the name of the design; full names start with TOP
        w.vpi->add_module("dut", "dut");
        w.vpi->add_module("", "TOP");
        w.vpi->roots = {w.vpi->roots[0]};
        w.vpi->add_module("dut", "TOP.dut");
        full = "TOP.dut";
    } else if (veri && shape == 1) {
        // nothing to iterate over
        w.vpi->add_module("", "TOP");
        w.vpi->add_module("dut", "TOP.dut");
        w.vpi->roots = {};
        full = "TOP.dut";
    } else {
        std::string root = shape == 2 ? "top" : "tb";
        w.vpi->add_module("", root);
        full = root + "." + name;
        w.vpi->add_module("", full);
        int extra = mc::choose(3);
        for (int i = 0; i < extra; i++) w.vpi->add_module("", full + ".x" + std::to_string(i));
    }
    c.add_design(full);
    c.copies.emplace_back("dut", full);
    w.cfg.clk = full + ".clk";
    mc::trace((veri ? "Verilator " : "no definition names ") + full);
    c.run(false, !veri);
    mc::evaluation();
    mc::nontrivial(mc::hash(full + std::to_string(shape) + (veri ? "v" : "")));
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C20";
    size_t n1 = 6 * (size_t)(MAXN + 1);
    c.tops = [=] { return 2 + n1; };
    c.body = [=](size_t t) {
        if (t < 2) return nodef(t);
        tree(t - 2);
    };
    return mc::main_(argc, argv, c);
}
