// A design with many kinds of names, and an independent reading of what a name denotes in the scope
// of a breakpoint, of an instance, or as a path, in a copy of the design.
#pragma once
#include "model.hh"
#include "refdb.hh"

namespace names {
using namespace model;
using refdb::Ent;
using refdb::Inst;
using refdb::Table;

inline J var(const std::string &n, const std::string &v, bool rtl = true) {
    return J::obj({{"name", n}, {"value", v}, {"rtl", rtl}});
}
inline J entry(const char *type, int line, const J &v = J()) {
    J j = J::obj({{"type", type}, {"line", line}});
    if (v.t != J::Null) j.set("variable", v);
    return j;
}
inline J module(const char *name, const char *file, const J &scope, const J &vars, const J &insts) {
    return J::obj({{"type", "module"}, {"name", name},
                   {"scope", J::arr({J::obj({{"type", "block"}, {"filename", file}, {"scope", scope}})})},
                   {"variables", vars}, {"instances", insts}});
}
inline J table() {
    J dut = module("dut", "dut.py",
                   J::arr({entry("assign", 1, var("a", "sa")), entry("assign", 2, var("a", "sb")),
                           entry("decl", 3, var("k", "9", false)), entry("assign", 4, var("v", "arr[2]")),
                           entry("decl", 5, var("lost", "gone2")), entry("none", 6)}),
                   J::arr({var("g", "g0"), var("gc", "11", false), var("a", "ga"), var("miss", "gone"),
                           var("sel", "arr[1]"), var("chq", "c0.q")}),
                   J::arr({J::obj({{"name", "c0"}, {"module", "child"}}), J::obj({{"name", "c1"}, {"module", "child"}})}));
    J child = module("child", "child.py", J::arr({entry("assign", 10, var("q", "q")), entry("none", 11)}),
                     J::arr({var("p", "p"), var("up", "dut.sa")}), J::arr());
    return J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}});
}
struct Sig {
    const char *name;
    uint32_t width;
};
static const Sig DUT_SIGS[] = {{"sa", 8}, {"sb", 8}, {"ga", 8}, {"raw", 8}, {"g0", 8}, {"k", 8}, {"w32", 32}, {"b1", 1}, {"w33", 33}};
static const Sig CHILD_SIGS[] = {{"p", 8}, {"q", 8}, {"raw", 8}, {"a", 8}};

// what a name stands for
struct Res {
    enum K { Err, Sig, Const, Time, Inst } k = Err;
    std::string full;       // Sig: full name without the slice
    int hi = -1, lo = -1;   // Sig: part select
    int64_t c = 0;
    bool maybe = false;     // an error is fine as well
};

class NKit {
public:
    Table ref;
    std::string path;
    int copies;
    std::vector<std::string> tops;
    std::map<std::string, uint32_t> inst_ids;
    struct Bp {
        const refdb::Inst *inst;
        const Ent *e;
    };
    std::map<uint32_t, Bp> bps;
    World &w;

    NKit(World &w, int copies) : ref(table()), path(design::write_table(table())), copies(copies), w(w) {
        auto p = hgdb::create_symbol_table(path);
        if (!p) mc::fail("valid symbol table rejected");
        refdb::Compare ids(*p, ref);
        ids.identify();
        for (auto &x : ids.ids) bps[x.first] = {x.second.first, x.second.second};
        for (auto &x : ids.inst_ids) inst_ids[x.first->name] = x.second;
        auto &v = *w.vpi;
        v.add_module("tb", "tb");
        v.add_signal("tb.clk", 1);
        v.add_signal("tb.glob", 8);
        for (int i = 0; i < copies; i++) {
            auto t = "tb.d" + std::to_string(i);
            tops.push_back(t);
            v.add_module("dut", t);
            v.add_signal(t + ".clk", 1);
            for (auto &s : DUT_SIGS) v.add_signal(t + "." + s.name, s.width);
            v.add_array(t + ".arr", {3}, 8, false);
            for (auto *c : {".c0", ".c1"}) {
                v.add_module("child", t + c);
                v.add_signal(t + c + ".clk", 1);
                for (auto &s : CHILD_SIGS) v.add_signal(t + c + "." + s.name, s.width);
            }
        }
        w.cfg.clk = tops[0] + ".clk";
    }
    sim::Obj *obj(const std::string &full) const {
        if (auto *o = w.vpi->find(full)) return o;
        auto p = full.rfind('[');
        if (p == full.npos || full.back() != ']') return nullptr;
        auto *a = w.vpi->find(full.substr(0, p));
        auto ix = full.substr(p + 1, full.size() - p - 2);
        if (!a || a->k != sim::Obj::Array || ix.empty() || ix.find_first_not_of("0123456789") != ix.npos) return nullptr;
        auto n = std::stoull(ix);
        return n < a->children.size() ? a->children[n] : nullptr;
    }
    std::vector<sim::Obj *> signals() const {
        std::vector<sim::Obj *> r;
        for (auto &t : tops) {
            for (auto &s : DUT_SIGS) r.push_back(w.vpi->find(t + "." + s.name));
            for (auto *c : w.vpi->find(t + ".arr")->children) r.push_back(c);
            for (auto *c : {".c0.", ".c1."})
                for (auto &s : CHILD_SIGS) r.push_back(w.vpi->find(t + c + s.name));
        }
        r.push_back(w.vpi->find("tb.glob"));
        return r;
    }
    void drive(uint64_t seed) {
        uint64_t n = 0;
        for (auto *o : signals()) o->value = (mc::hash(std::to_string(seed) + "." + std::to_string(++n)) >> 11) & ((1ull << o->width) - 1);
    }
    std::map<std::string, uint64_t> snapshot() const {
        std::map<std::string, uint64_t> r;
        for (auto *o : signals()) r[o->full] = o->value;
        return r;
    }
    // a signal by its full name (possibly with a part select)
    std::optional<Res> signal(const std::string &n) const {
        Res r;
        r.k = Res::Sig;
        auto *o = obj(n);
        r.full = n;
        if (!o) {
            auto b = n.rfind('[');
            if (b == n.npos || n.back() != ']') return {};
            auto in = n.substr(b + 1, n.size() - b - 2);
            auto c = in.find(':');
            if (c == in.npos) return {};
            r.hi = std::stoi(in.substr(0, c));
            r.lo = std::stoi(in.substr(c + 1));
            r.full = n.substr(0, b);
            o = obj(r.full);
            if (!o || o->k != sim::Obj::Signal || r.hi < r.lo || r.hi >= (int)o->width) return {};
        }
        if (o->k == sim::Obj::Array) {
            r.maybe = true;  // no statement about whole arrays
            return r;
        }
        if (o->k != sim::Obj::Signal) return {};
        return r;
    }
    // of a name in terms of the symbol table
    std::string tr(const std::string &n, int copy) const {
        if (n == "dut") return tops[(size_t)copy];
        if (n.rfind("dut.", 0) == 0) return tops[(size_t)copy] + n.substr(3);
        return n;
    }
    Res value_of(const refdb::Var &v, const std::string &inst, int copy) const {
        Res r;
        if (!v.rtl) {
            r.k = Res::Const;
            r.c = std::stoll(v.value);
            return r;
        }
        bool abs = v.value.rfind("dut.", 0) == 0;
        auto s = signal(tr(abs ? v.value : inst + "." + v.value, copy));
        if (!s) return r;
        s->maybe = s->maybe || abs;
        return *s;
    }
    // what the symbol table declares in the scope; nullopt: nothing of that name
    std::optional<Res> declared(const std::string &sym, const Bp *bp, const std::string &inst, int copy) const {
        std::vector<refdb::Var> vars;
        if (bp) {
            vars = ref.context(bp->e);
            std::reverse(vars.begin(), vars.end());
        } else
            vars = ref.inst(inst)->mod->gvars;
        for (auto &v : vars)
            if (v.name == sym) return value_of(v, inst, copy);
        for (auto &v : vars)
            if (v.rtl && v.value == sym) return value_of(v, inst, copy);
        return {};
    }
    // evaluation: breakpoint, then instance, then path
    Res resolve(const std::string &sym, std::optional<uint32_t> bp, std::optional<uint32_t> inst, int copy) const {
        Res r;
        if (sym == "$time") {
            r.k = Res::Time;
            return r;
        }
        if (sym == "$instance") {
            r.k = Res::Inst;
            return r;
        }
        std::string in;
        if (bp && bps.count(*bp)) {
            auto &b = bps.at(*bp);
            if (auto d = declared(sym, &b, b.inst->name, copy)) return *d;
            in = b.inst->name;
        } else if (inst)
            for (auto &p : inst_ids)
                if (p.second == *inst) in = p.first;
        if (!in.empty()) {
            if (auto d = declared(sym, nullptr, in, copy)) {
                // constants of an instance
                if (d->k == Res::Const) d->maybe = true;
                return *d;
            }
            if (auto s = signal(tr(in + "." + sym, copy))) return *s;
        }
        if (auto s = signal(tr(sym, copy))) {
            // scopes that do not exist
            if ((bp && !bps.count(*bp)) || (!bp && inst && in.empty())) s->maybe = true;
            return *s;
        }
        return r;
    }
    int64_t value(const Res &r, uint32_t inst_id) const {
        switch (r.k) {
            case Res::Const:
                return r.c;
            case Res::Time:
                return (int64_t)w.vpi->time;
            case Res::Inst:
                return inst_id;
            default:
                break;
        }
        auto *o = obj(r.full);
        uint64_t v = o->value;
        if (r.hi >= 0) return (int64_t)((v >> r.lo) & ((1ull << (r.hi - r.lo + 1)) - 1));
        return (int64_t)(int32_t)(uint32_t)v;
    }
};
}  // namespace names
