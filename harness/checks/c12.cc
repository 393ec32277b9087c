// C12: every evaluation request over alphabets of expressions, scopes, ids and copies, in several
// states of the simulation, against an independent resolution of names.
// build: plain
#include "names.hh"
using namespace names;

static const std::vector<std::string> SYMS = {
    "a", "sa", "sb", "k", "g", "gc", "miss", "lost", "v", "sel", "chq", "raw", "arr[1]", "arr[3]", "arr",
    "c0.q", "c0", "q", "p", "up", "w32", "w32[7:4]", "w32[35:32]", "b1", "dut.sa", "dut.c1.q",
    "dut.arr[0]", "tb.d0.sa", "tb.d1.sa", "tb.d1.c0.q", "tb.glob", "glob", "nosuch", "$time", "$instance", "dut", "g0",
    "tb.d0.c0.a", "dut.c0.nosuch", "c1.raw", "gone", "a.nosuch", "k.y", "gc[1]"};
// with %1 and %2 for names
struct Form {
    const char *fmt;
    std::function<int64_t(int64_t, int64_t)> f;
    bool two, bad;
};
static const std::vector<Form> FORMS = {
    {"%1", [](int64_t a, int64_t) { return a; }, false, false},
    {"%1 + 3", [](int64_t a, int64_t) { return a + 3; }, false, false},
    {"(%1 == %2)", [](int64_t a, int64_t b) { return (int64_t)(a == b); }, true, false},
    {"%1 - %2 * 2", [](int64_t a, int64_t b) { return a - b * 2; }, true, false},
    {"%1 +", nullptr, false, true},
    {"(%1", nullptr, false, true},
    {"%1 %2", nullptr, true, true},
    {"", nullptr, false, true},
};
static std::string subst(std::string s, const std::string &a, const std::string &b) {
    for (size_t p; (p = s.find("%1")) != s.npos;) s.replace(p, 2, a);
    for (size_t p; (p = s.find("%2")) != s.npos;) s.replace(p, 2, b);
    return s;
}
// state: 0 before the start, 1 after an edge, 2 paused at a statement, 3 as 2 with the signal cache on
// and values written meanwhile, 4 the same but running again
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    int state = (int)(top >> 1) % 5;
    World w;
    NKit kit(w, copies);
    kit.drive(1);
    w.create();
    w.start();
    w.open(1);
    must(w, world::r_connect(kit.path));
    if (state >= 3) must(w, world::request("option-change", J::obj({{"use_signal_cache", true}})));
    if (state >= 1) {
        if (state >= 2) must(w, world::r_bp("add", "child.py", 11, 0, "raw >= 0"));
        w.send(1, world::r_cmd("continue"));
        kit.drive(2);
        w.edge();
        if (w.paused() != (state >= 2)) mc::fail("not where the requests should be served");
    }
    // scopes: none, every instance, every breakpoint, ids that do not exist; both
    struct Scope {
        std::optional<uint32_t> bp, inst;
    };
    std::vector<Scope> scopes = {{}};
    for (auto &i : kit.inst_ids) scopes.push_back({{}, i.second});
    for (auto &b : kit.bps) scopes.push_back({b.first, {}});
    for (auto &b : kit.bps) scopes.push_back({b.first, kit.inst_ids.at(b.second.inst->name)});
    scopes.push_back({999, {}});
    scopes.push_back({{}, 999});
    auto &sc = scopes[top / 10];
    if (top / 10 >= scopes.size()) mc::fail("scope count");
    if (state >= 3) {
        // everything is read before
        for (int ns = 0; ns < copies; ns++)
            for (auto &n : SYMS) {
                J p = J::obj({{"expression", n}, {"namespace_id", ns}});
                if (sc.bp) p.set("breakpoint_id", *sc.bp);
                if (sc.inst) p.set("instance_id", *sc.inst);
                w.send(1, world::request("evaluation", p));
            }
        if (state == 4) {
            // the simulation goes on, the values change before the next edge
            for (int i = 0; i < 6 && w.paused(); i++) w.send(1, world::r_cmd("continue"));
            kit.drive(3);
        } else
            for (auto *n : {"tb.d0.sa", "tb.d0.w32"}) must(w, world::request("set-value", J::obj({{"var_name", n}, {"value", 0x1571}})));
    }
    auto one = [&](const Form &f, const std::string &s1, const std::string &s2, int ns) {
        auto text = subst(f.fmt, s1, s2);
        J p = J::obj({{"expression", text}});
        if (sc.bp) p.set("breakpoint_id", *sc.bp);
        if (sc.inst) p.set("instance_id", *sc.inst);
        if (ns >= 0) p.set("namespace_id", ns);
        auto req = world::request("evaluation", p, "t");
        mc::note(req.dump());
        auto evs = w.send(1, req);
        auto st = status(evs);
        bool ok = st == "success";
        if (!ok && st != "error") mc::fail("no reply to " + req.dump());
        mc::evaluation();
        mc::validated();
        mc::state(mc::hash(req.dump() + std::to_string(state) + std::to_string(copies)));
        if (f.bad || ns >= copies) {
            if (ok) mc::fail("value for an invalid request: " + req.dump() + ": " + evs.back().text);
            return;
        }
        // a scope without namespace: the first copy, or an error if there are several
        bool maybe = ns < 0 && copies > 1 && (sc.bp || sc.inst);
        int copy = ns < 0 ? 0 : ns;
        uint32_t iid = sc.inst ? *sc.inst : sc.bp && kit.bps.count(*sc.bp) ? kit.inst_ids.at(kit.bps.at(*sc.bp).inst->name) : 0;
        auto r1 = kit.resolve(s1, sc.bp, sc.inst, copy);
        auto r2 = f.two ? kit.resolve(s2, sc.bp, sc.inst, copy) : r1;
        // nothing to say about the instance where there is none
        if ((r1.k == Res::Inst || r2.k == Res::Inst) && (!iid || iid == 999)) maybe = true;
        if (r1.k == Res::Err || r2.k == Res::Err) {
            if (ok) mc::fail("a name that cannot be resolved has a value: " + req.dump() + ": " + evs.back().text);
            return;
        }
        maybe = maybe || r1.maybe || r2.maybe;
        if (!ok) {
            if (!maybe) mc::fail("error for " + req.dump() + ": " + evs.back().text);
            return;
        }
        // whole arrays have no integer value
        for (auto *r : {&r1, &r2})
            if (r->k == Res::Sig && kit.obj(r->full)->k != sim::Obj::Signal) return;
        auto want = std::to_string(f.f(kit.value(r1, iid), kit.value(r2, iid)));
        auto got = evs.back().msg["payload"]["result"].str();
        if (got != want) mc::fail(req.dump() + " evaluates to " + got + ", expected " + want);
        mc::nontrivial(mc::hash(req.dump()));
    };
    auto before = kit.snapshot();
    for (int ns = -1; ns <= copies; ns++)
        for (size_t i = 0; i < SYMS.size(); i++) {
            for (auto &f : FORMS) {
                if (!f.two) {
                    one(f, SYMS[i], "", ns);
                    continue;
                }
                for (size_t j = 0; j < SYMS.size(); j++) one(f, SYMS[i], SYMS[(i + j) % SYMS.size()], ns);
            }
            mc::checkpoint();
        }
    if (kit.snapshot() != before) mc::fail("an evaluation changed a signal");
    // and it goes on
    if (state == 0) w.send(1, world::r_cmd("continue"));
    if (w.paused()) for (int i = 0; i < 6 && w.paused(); i++) w.send(1, world::r_cmd("continue"));
    if (!w.idle()) mc::fail("the simulation does not run on after the evaluations");
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C12";
    c.tops = [] { return (size_t)(10 * (1 + 3 + 10 + 10 + 2)); };
    c.body = body;
    return mc::main_(argc, argv, c);
}
