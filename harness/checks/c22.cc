// C22: every set-value request over alphabets of names, scopes, copies and values, in several
// states of the simulation: exactly the named signal changes, everything that reads it afterwards
// (evaluations, reports, conditions, monitors) sees the new value, and failures change nothing.
// build: plain
#include "names.hh"
using namespace names;

static const std::vector<std::string> SYMS = {
    "a", "sa", "sb", "k", "g", "gc", "miss", "lost", "v", "sel", "chq", "raw", "arr[1]", "arr[3]", "arr[]", "arr[a]",
    "c0.q", "c0", "q", "p", "w32", "tb.d0.w33", "w32[7:4]", "b1", "dut.sa", "dut.c1.q", "dut.w32",
    "dut.arr[0]", "dut.arr[9]", "tb.d0.sa", "tb.d1.sa", "tb.d1.c0.q", "tb.glob", "glob", "nosuch", "a.nosuch", "k.y", "$time", "$instance",
    "dut", "g0", "tb.d0.c0.a", "dut.c0.nosuch", "", "tb.d0.w32[3:0]", "tb", "gone", "tb.d1.arr[2]"};
static const std::vector<int64_t> VALS = {0, 1, 200, 0x1234, -1, 0x7fffffff, 0x80000001ll, 0xffffffffll, 0x100000000ll, -0x80000001ll, INT64_MAX, INT64_MIN};

struct Scope {
    std::optional<uint32_t> bp, inst;
};
struct Run {
    World &w;
    NKit &kit;
    int copies, state;
    Scope sc;
    bool refuse = false;

    void one(const std::string &sym, int64_t val, int ns) {
        J p = J::obj({{"var_name", sym}, {"value", val}});
        if (sc.bp) p.set("breakpoint_id", *sc.bp);
        if (sc.inst) p.set("instance_id", *sc.inst);
        if (ns >= 0) p.set("namespace_id", ns);
        auto req = world::request("set-value", p, "t");
        mc::note(req.dump());
        auto before = kit.snapshot();
        auto evs = w.send(1, req);
        auto st = status(evs);
        bool ok = st == "success";
        if (!ok && st != "error") mc::fail("no reply to " + req.dump());
        auto after = kit.snapshot();
        mc::evaluation();
        mc::validated();
        mc::state(mc::hash(req.dump() + std::to_string(state) + std::to_string(copies)));
        auto changed = [&] {
            std::string s;
            for (auto &x : after)
                if (before.at(x.first) != x.second) s += x.first + " ";
            return s;
        };
        if (!ok) {
            if (!changed().empty()) mc::fail("the failed request " + req.dump() + " changed " + changed());
        }
        if (ns >= copies) {
            if (ok) mc::fail("success for a copy that does not exist: " + req.dump());
            return;
        }
        // no namespace: the first copy, or an error if there are several
        int copy = ns < 0 ? 0 : ns;
        bool maybe = ns < 0 && copies > 1 && (sc.bp || sc.inst);
        // in the direct scope it has to work, further resolution is fine
        auto r = kit.resolve(sym, sc.bp, sc.inst, copy);
        if (sc.bp || sc.inst) {
            const NKit::Bp *bp = sc.bp && kit.bps.count(*sc.bp) ? &kit.bps.at(*sc.bp) : nullptr;
            std::string in;
            if (bp) in = bp->inst->name;
            else if (!sc.bp)
                for (auto &x : kit.inst_ids)
                    if (sc.inst == x.second) in = x.first;
            if (in.empty() || !kit.declared(sym, bp, in, copy)) maybe = true;
            // the generator variable is shadowed by the one of the statement, or the other way round
            if (sc.bp && sc.inst) maybe = true;
        }
        auto *o = r.k == Res::Sig ? kit.obj(r.full) : nullptr;
        if (!o || o->k != sim::Obj::Signal) {
            if (ok) mc::fail("success although nothing can be written: " + req.dump());
            return;
        }
        if (w.vpi->put_refuse.count(o->full)) {
            if (ok) mc::fail("success although the simulator refuses: " + req.dump());
            return;
        }
        maybe = maybe || r.maybe || r.hi >= 0;
        // what the simulator cannot take in one integer
        uint64_t mask = (1ull << o->width) - 1;
        bool fits = val >= INT32_MIN && val <= (int64_t)UINT32_MAX;
        if (!fits || (uint64_t)val > mask || (o->width > 32 && val > INT32_MAX)) maybe = true;
        if (!ok) {
            if (!maybe) mc::fail("error for " + req.dump() + ": " + evs.back().text);
            return;
        }
        if (!fits) mc::fail("success although the value is not the one written: " + req.dump());
        auto want = before;
        if (r.hi >= 0) {
            uint64_t m = ((1ull << (r.hi - r.lo + 1)) - 1) << r.lo;
            want[o->full] = (want[o->full] & ~m) | (((uint64_t)val << r.lo) & m);
        } else
            want[o->full] = (uint64_t)val & mask;
        if (after != want) mc::fail(req.dump() + " changed " + changed() + ", expected only " + o->full + "; it is " + std::to_string(o->value));
        mc::nontrivial(mc::hash(req.dump()));
        // later reads
        J q = J::obj({{"expression", sym}});
        if (sc.bp) q.set("breakpoint_id", *sc.bp);
        if (sc.inst) q.set("instance_id", *sc.inst);
        if (ns >= 0) q.set("namespace_id", ns);
        evs = w.send(1, world::request("evaluation", q));
        if (status(evs) == "success") {
            auto got = evs.back().msg["payload"]["result"].str();
            if (got != std::to_string(kit.value(r, 0))) mc::fail("after " + req.dump() + " " + sym + " still evaluates to " + got);
        } else if (!r.maybe && !(ns < 0 && copies > 1))
            mc::fail("after " + req.dump() + " " + sym + " cannot be evaluated");
    }
};
static std::vector<Scope> scopes(const NKit &kit) {
    std::vector<Scope> s = {{}};
    for (auto &i : kit.inst_ids) s.push_back({{}, i.second});
    for (auto &b : kit.bps) s.push_back({b.first, {}});
    for (auto &b : kit.bps)
        if (b.second.e->line == 6 || b.second.e->line == 11) s.push_back({b.first, kit.inst_ids.at(b.second.inst->name)});
    s.push_back({999, {}});
    s.push_back({{}, 999});
    return s;
}
static const size_t NSC = 1 + 3 + 10 + 3 + 2;
// state: 0 before the start, 1 between edges, 2 paused, 3 paused with the signal cache on, 4 the
// simulator refuses to write some signals
static void requests(size_t top) {
    int copies = 1 + (int)(top & 1);
    int state = (int)(top >> 1) % 5;
    auto si = (top >> 1) / 5;
    World w;
    NKit kit(w, copies);
    kit.drive(1);
    w.create();
    w.start();
    w.open(1);
    must(w, world::r_connect(kit.path));
    auto sc = scopes(kit);
    if (sc.size() != NSC) mc::fail("scope count");
    if (state == 3) must(w, world::request("option-change", J::obj({{"use_signal_cache", true}})));
    if (state == 4) w.vpi->put_refuse = {"tb.d0.sa", "tb.d0.g0", "tb.d1.c0.q"};
    if (state >= 1 && state < 4) {
        if (state >= 2) must(w, world::r_bp("add", "child.py", 11, 0, "raw >= 0 && sa0 >= 0 || 1 == 1"), "error");
        if (state >= 2) must(w, world::r_bp("add", "child.py", 11, 0, "raw >= 0"));
        w.send(1, world::r_cmd("continue"));
        kit.drive(2);
        w.edge();
        if (w.paused() != (state >= 2)) mc::fail("not where the requests should be served");
    }
    Run r{w, kit, copies, state, sc[si]};
    for (int ns = -1; ns <= copies; ns++)
        for (auto &s : SYMS) {
            for (auto v : VALS) r.one(s, v, ns);
            mc::checkpoint();
        }
    if (state == 0 || state == 4) w.send(1, world::r_cmd("continue"));
    for (int i = 0; i < 6 && w.paused(); i++) w.send(1, world::r_cmd("continue"));
    if (!w.idle()) mc::fail("the simulation does not run on after the requests");
}
// conditions, reports and monitors of the same edge and of the next one use what has been written,
// with the signal cache on or off
static void later(size_t top) {
    bool cache = top & 1;
    int copies = 1 + (int)(top >> 1 & 1);
    auto kit = design::kit1(copies);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    must(w, world::request("option-change", J::obj({{"use_signal_cache", cache}})));
    for (auto *f : {"dut.py", "child.py"})
        for (uint32_t l : {1u, 2u, 3u, 4u, 10u, 11u}) {
            auto at = ref.at(f, l);
            if (at.empty()) continue;
            UCond c = l == 4 ? uc_lit("a") : l == 11 ? uc_lit("p") : uc_true();
            must(w, world::r_bp("add", f, l, 0, c.text));
            for (auto *s : at) ref.insert(*s, c);
        }
    ref.go();
    // one or two edges; at every pause any one signal may be inverted
    int writes = mc::thorough() ? 3 : 2;
    auto start = mc::choose(4);
    Vals v;
    for (auto &t : kit.tops) {
        v[t + ".a"] = start & 1;
        v[t + ".b"] = start >> 1 & 1;
        v[t + ".c0.p"] = 1;
        v[t + ".c1.p"] = 0;
    }
    std::vector<std::string> sigs;
    for (auto &t : kit.tops)
        for (auto *s : {".a", ".b", ".c0.p", ".c1.p"}) sigs.push_back(t + s);
    for (int e = 0; e < 2; e++) {
        bool p = ref.edge(e == 0 ? v : Vals());
        while (p) {
            if (writes > 0) {
                auto k = mc::choose((int)sigs.size() + 1);
                if (k) {
                    writes--;
                    auto &s = sigs[(size_t)k - 1];
                    auto nv = w.vpi->get(s) ? 0 : 1;
                    must(w, world::request("set-value", J::obj({{"var_name", s}, {"value", nv}})));
                    if (w.vpi->get(s) != (uint64_t)nv) mc::fail(s + " has not been written");
                    // the other copies of the statement it is paused at have been decided together
                    for (auto &x : ref.bps)
                        if (ref.pos && kit.by_id(x.id)->order == *ref.pos) ref.maybe.insert({x.id, x.copy});
                    // also as seen by an evaluation right after
                    auto evs = w.send(1, world::request("evaluation", J::obj({{"expression", s}})));
                    if (evs.back().msg["payload"]["result"].str() != std::to_string(nv)) mc::fail("the written value of " + s + " is not seen");
                }
            }
            p = ref.resume(Cont);
        }
    }
    mc::evaluation();
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C22";
    c.tops = [] { return 4 + 2 * 5 * NSC; };
    c.body = [](size_t t) {
        if (t < 4) return later(t);
        requests(t - 4);
    };
    return mc::main_(argc, argv, c);
}
