// C15: every history of breakpoint requests up to the bound around delayed variables of several
// depths, in one or two copies, continuing or stepping, with new values at every edge or at every other one, with reconnections: what
// is reported for them is the value of exactly that many edges ago, or not available.
// build: asan
#include "model.hh"
using namespace model;

struct DVar {
    const char *name, *sig;  // sig may be an array
    int depth;
    int elems = 0;
};
static const std::vector<DVar> DUT3 = {{"d1", "x", 1}, {"d2", "x", 2}};
static const std::vector<DVar> DUT5 = {{"d1", "x", 1}, {"d2", "x", 2}, {"da", "arr", 1, 2}};
static const std::vector<DVar> CH11 = {{"dq", "q", 3}};
static const std::vector<DVar> CH13 = {{"dq", "q", 3}, {"e1", "q", 1}};
static const std::vector<DVar> &vars_of(const std::string &inst, uint64_t line) {
    static const std::vector<DVar> none;
    if (inst == "dut") return line == 3 ? DUT3 : line == 5 ? DUT5 : none;
    return line == 11 ? CH11 : line == 13 ? CH13 : none;
}
static J delayed(const char *n, const char *v, int depth) {
    J j = design::var(n, v);
    j.set("type", "delay");
    if (depth != 1) j.set("depth", depth);
    return j;
}
static J entry(const char *type, int line, const J &v = J()) {
    J j = J::obj({{"type", type}, {"line", line}});
    if (v.t != J::Null) j.set("variable", v);
    return j;
}
static design::Kit kit4(int copies) {
    using design::Kit;
    Kit k;
    k.copies = copies;
    auto mod = [](const char *name, const char *file, const J &scope, const J &insts) {
        return J::obj({{"type", "module"}, {"name", name},
                       {"scope", J::arr({J::obj({{"type", "block"}, {"filename", file}, {"scope", scope}})})},
                       {"variables", J::arr()}, {"instances", insts}});
    };
    J dut = mod("dut", "dut.py",
                J::arr({entry("decl", 1, delayed("d1", "x", 1)), entry("decl", 2, delayed("d2", "x", 2)),
                        entry("assign", 3, design::var("y", "y")), entry("decl", 4, delayed("da", "arr", 1)), entry("none", 5)}),
                J::arr({J::obj({{"name", "c0"}, {"module", "child"}}), J::obj({{"name", "c1"}, {"module", "child"}})}));
    J child = mod("child", "child.py",
                  J::arr({entry("decl", 10, delayed("dq", "q", 3)), entry("none", 11), entry("decl", 12, delayed("e1", "q", 1)), entry("none", 13)}),
                  J::arr());
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}});
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = design::write_table(k.table);
    return k;
}
struct Op {
    int k = 0;  // 0 nothing, 1 add, 2 remove, 3 the symbol table is connected again
    const char *file = "";
    int line = 0;
};
static std::vector<Op> ops() {
    std::vector<Op> r = {{}};
    for (int k = 1; k <= 2; k++) {
        r.push_back({k, "dut.py", 3});
        r.push_back({k, "dut.py", 5});
        r.push_back({k, "child.py", 11});
        r.push_back({k, "child.py", 13});
    }
    r.push_back({3});
    return r;
}
static size_t tops() { return 2 * 2 * 2 * 10; }
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool at_pause = top >> 1 & 1, stepping = top >> 2 & 1;
    auto all = ops();
    auto &first = all[top >> 3];
    auto kit = kit4(copies);
    World w;
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_signal("tb.clk", 1);
    std::vector<std::string> sigs;
    for (auto &t : kit.tops) {
        v.add_module("dut", t);
        v.add_signal(t + ".clk", 1);
        for (auto *s : {".x", ".y"}) {
            v.add_signal(t + s, 32);
            sigs.push_back(t + s);
        }
        v.add_array(t + ".arr", {2}, 32);
        sigs.push_back(t + ".arr[0]");
        sigs.push_back(t + ".arr[1]");
        for (auto *c : {".c0", ".c1"}) {
            v.add_module("child", t + c);
            v.add_signal(t + c + ".clk", 1);
            v.add_signal(t + c + ".q", 32);
            sigs.push_back(t + c + ".q");
        }
    }
    w.cfg.clk = kit.tops[0] + ".clk";
    bring_up(w, kit);
    std::vector<Vals> hist;  // values per edge; 0: before the first one
    auto drive = [&](int e) {
        Vals r;
        int n = 1;
        for (auto &s : sigs) {
            // with two copies every value stays for two edges, from different edges on
            int step = copies == 1 ? e : (e + (n + stepping) % 2) / 2;
            r[s] = (uint64_t)(1000 * step + 10 * n++);
        }
        return r;
    };
    for (auto &p : drive(0)) v.set(p.first, p.second);
    hist.push_back(drive(0));
    std::map<std::pair<std::string, int>, int> since;  // (signal, depth) -> edge at which tracking started
    std::set<std::pair<std::string, int>> added;
    auto perform = [&](const Op &o) {
        if (!o.k) return;
        if (o.k == 3) {
            mc::trace("connect");
            must(w, world::r_connect(kit.path));
            added.clear();
            since.clear();
            return;
        }
        must(w, world::r_bp(o.k == 1 ? "add" : "remove", o.file, (uint64_t)o.line));
        if (o.k == 2) {
            added.erase({o.file, o.line});
            return;
        }
        added.insert({o.file, o.line});
        for (auto &t : kit.tops)
            for (auto *i : {"dut", "dut.c0", "dut.c1"}) {
                if ((std::string(i) == "dut") != (std::string(o.file) == "dut.py")) continue;
                for (auto &d : vars_of(i, (uint64_t)o.line))
                    for (int x = 0; x < std::max(1, d.elems); x++) {
                        auto full = t + std::string(i).substr(3) + "." + d.sig + (d.elems ? "[" + std::to_string(x) + "]" : "");
                        since.emplace(std::make_pair(full, d.depth), (int)hist.size() - 1);
                    }
            }
    };
    auto check = [&](const std::vector<Ev> &evs) {
        auto hs = Ref::hits_in(evs);
        if (hs.size() != (w.paused() ? 1u : 0u)) mc::fail("hits do not match the pause");
        mc::validated();
        for (auto &h : hs) {
            mc::trace("  -> " + h.file + ":" + std::to_string(h.line));
            int m = (int)hist.size() - 1;
            for (auto &sc : h.scopes) {
                auto full = sc.inst_name;  // tb.dN[.cM]
                auto in = "dut" + full.substr(5);
                for (auto &d : vars_of(in, h.line))
                    for (int x = 0; x < std::max(1, d.elems); x++) {
                        auto sig = full + "." + d.sig + (d.elems ? "[" + std::to_string(x) + "]" : "");
                        std::string name = d.name + (d.elems ? "." + std::to_string(x) : std::string());
                        auto it = sc.local.find(name);
                        if (it == sc.local.end() && d.elems) it = sc.local.find(d.name + ("[" + std::to_string(x) + "]"));
                        if (it == sc.local.end()) mc::fail("variable " + name + " is not reported at " + h.file + ":" + std::to_string(h.line));
                        auto tr = since.find({sig, d.depth});
                        auto want = m >= d.depth ? std::to_string(hist[(size_t)(m - d.depth)].at(sig)) : "ERROR";
                        bool must_have = tr != since.end() && m - d.depth >= tr->second;
                        mc::state(mc::hash(name + h.file + std::to_string(h.line) + std::to_string(m) + it->second));
                        if (it->second == "ERROR" && !must_have) continue;
                        if (it->second != want)
                            mc::fail(sc.inst_name + " " + name + " (delay " + std::to_string(d.depth) + ") is reported as " + it->second + " at edge " + std::to_string(m) + ", expected " + want + (must_have ? "" : " or ERROR") + "; tracked since " + (tr == since.end() ? "never" : std::to_string(tr->second)));
                        if (must_have) mc::nontrivial(mc::hash(sig + std::to_string(d.depth) + "@" + std::to_string(m) + "-" + std::to_string(tr->second)));
                    }
            }
        }
    };
    auto edge = [&] {
        auto vals = drive((int)hist.size());
        hist.push_back(vals);
        mc::trace("edge " + std::to_string(hist.size() - 1));
        check(w.edge(vals));
    };
    auto resume = [&] {
        for (int i = 0; i < 60 && w.paused(); i++) {
            // a step in every other edge
            bool st = stepping && hist.size() % 2 == 0;
            mc::trace(st ? "step" : "continue");
            check(w.send(1, world::r_cmd(st ? "step_over" : "continue")));
        }
        if (w.paused()) mc::fail("pauses without end");
    };
    if (at_pause) {
        // y is a plain variable, the delayed ones in front of it are tracked from here on
        perform({1, "dut.py", 3});
    }
    int slots = mc::thorough() ? 5 : 4;
    bool started = false;
    for (int s = 0; s < slots; s++) {
        auto pick = [&]() -> const Op & { return s == 0 ? first : all[(size_t)mc::choose((int)all.size())]; };
        if (!at_pause) {
            auto &o = pick();
            if (o.k == 2 && !added.count({o.file, o.line})) return;
            perform(o);
        }
        if (!started) w.send(1, world::r_cmd("continue"));
        started = true;
        edge();
        if (at_pause && w.paused()) {
            auto &o = pick();
            if (o.k == 2 && !added.count({o.file, o.line})) return;
            perform(o);
        }
        resume();
    }
    for (int e = 0; e < 4; e++) {
        edge();
        resume();
    }
    mc::evaluation();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C15";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
