// C14: every history of data breakpoint requests up to the bound (with normal breakpoints and
// monitors in between), made between edges or at pauses, against a reference of what is watched:
// every pause of the edges that follow, and the reported set after every request.
// build: plain
#include "model.hh"
using namespace model;

// module dut { 1: x (sx0); if (a) 2: x (sx1); if (a) 3: arr[idx] }, module child { if (p) 10: q; 11: q }
static design::Kit kit3(int copies) {
    using namespace design;
    Kit k;
    k.copies = copies;
    J arr = assign("arr", "arr", 3, 0, "a");
    arr.set("indices", J::arr({J::obj({{"var", var("i", "idx")}, {"min", 0}, {"max", 1}})}));
    J dut = J::obj({{"type", "module"}, {"name", "dut"},
                    {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "dut.py"},
                                              {"scope", J::arr({assign("x", "sx0", 1), assign("x", "sx1", 2, 0, "a"), arr})}})})},
                    {"variables", J::arr({var("a", "a")})},
                    {"instances", J::arr({J::obj({{"name", "c0"}, {"module", "child"}}),
                                          J::obj({{"name", "c1"}, {"module", "child"}})})}});
    J child = J::obj({{"type", "module"}, {"name", "child"},
                      {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "child.py"},
                                                {"scope", J::arr({assign("q", "q", 10, 0, "p"), assign("q", "q", 11)})}})})},
                      {"variables", J::arr({var("p", "p")})},
                      {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}, {"generator", "check"}});
    auto add = [&](const char *inst, const char *f, int line, std::vector<Lit> c, const char *t) {
        Stmt s;
        s.inst = inst;
        s.file = f;
        s.line = (uint32_t)line;
        s.cond = c;
        s.target = t;
        k.stmts.push_back(s);
    };
    add("dut", "dut.py", 1, {}, "sx0");
    add("dut", "dut.py", 2, {{"a", true}}, "sx1");
    add("dut", "dut.py", 3, {{"a", true}}, "arr");
    for (auto *i : {"dut.c0", "dut.c1"}) {
        add(i, "child.py", 10, {{"p", true}}, "q");
        add(i, "child.py", 11, {}, "q");
    }
    for (int c = 0; c < copies; c++) k.tops.push_back("tb.d" + std::to_string(c));
    k.path = write_table(k.table);
    number(k);
    return k;
}

struct DEntry {
    const Stmt *s;
    int copy;
    bool data;
    std::string sig;    // watched signal
    int idx = -1;       // assigned only for this value of the index
    UCond cond;
    std::string group;  // copy/instance/variable
    bool fresh = false;
    bool done = false;
};
struct Machine {
    World &w;
    const design::Kit &kit;
    int copies;
    std::vector<DEntry> es;
    std::map<std::string, int64_t> last;  // per group
    std::optional<uint32_t> pos;
    uint64_t pauses = 0;

    const Stmt &stmt(const std::string &inst, uint32_t line) const {
        for (auto &s : kit.stmts)
            if (s.inst == inst && s.line == line) return s;
        mc::fail("no such statement");
    }
    uint64_t val(const DEntry &e, const std::string &sig) const {
        auto n = kit.full(e.s->inst, e.copy) + "." + sig;
        return w.vpi->get(n);
    }
    bool hits(const DEntry &e) const {
        for (auto &l : e.s->cond)
            if ((val(e, l.sig) != 0) != l.pos) return false;
        if (e.idx >= 0 && val(e, "idx") != (uint64_t)e.idx) return false;
        if (!e.cond.dnf.empty()) {
            bool any = false;
            for (auto &c : e.cond.dnf) {
                bool all = true;
                for (auto &l : c) all = all && (val(e, l.sig) != 0) == l.pos;
                any = any || all;
            }
            if (!any) return false;
        }
        if (!e.data) return true;
        auto it = last.find(e.group);
        return it == last.end() || it->second != (int64_t)val(e, e.sig);
    }
    // the next statement with hits
    std::vector<DEntry *> next(uint32_t after = 0, bool all = false) {
        std::vector<DEntry *> r;
        for (auto &s : kit.stmts) {
            if (!all && pos && s.order < *pos) continue;
            if (s.order < after) continue;
            for (auto &e : es)
                if (e.s == &s && !e.done && hits(e)) r.push_back(&e);
            if (!r.empty()) break;
        }
        return r;
    }
    std::string list() {
        std::string s;
        for (auto &e : es)
            if (!e.done && (!pos || e.s->order >= *pos) && hits(e)) s += (e.data ? "data " : "") + std::to_string(e.s->id) + "/" + std::to_string(e.copy) + (e.fresh ? "? " : " ");
        return s.empty() ? "none" : s;
    }
    DEntry *pick(const design::HitScope &sc, const std::vector<DEntry *> &l) {
        for (auto *e : l)
            if (e->s->id == sc.bp_id && e->copy == (int)sc.ns_id && e->data == (sc.type == "data")) return e;
        return nullptr;
    }
    void check(const std::vector<Ev> &evs) {
        auto hs = Ref::hits_in(evs);
        bool p = w.paused();
        if (hs.size() != (p ? 1u : 0u)) mc::fail(std::to_string(hs.size()) + " hit messages, " + (p ? "paused" : "running"));
        mc::validated();
        std::string st;
        for (auto &g : last) st += g.first + "=" + std::to_string(g.second) + ",";
        for (auto &e : es) st += std::to_string(e.s->id) + (e.data ? "d" : "n") + e.cond.text + std::to_string(e.copy);
        mc::state(mc::hash(st + (p ? design::show(hs[0]) : "")));
        if (!p) {
            for (auto &e : es)
                if (!e.done && !e.fresh && (!pos || e.s->order >= *pos) && hits(e)) mc::fail("the edge ended without the pauses " + list());
            pos.reset();
            return;
        }
        pauses++;
        auto &h = hs[0];
        for (auto &e : evs)
            if (e.conn == 1 && design::is_hit(e.msg)) mc::trace("  -> " + design::show(h) + " " + h.scopes[0].type);
        if (h.scopes.empty() || h.time != w.vpi->time) mc::fail("hit without instances or with a wrong time");
        bool any_data = false;
        for (auto &sc : h.scopes) any_data = any_data || sc.type == "data";
        auto left = h.scopes;
        uint32_t arrived = 0xffffffff;
        while (!left.empty()) {
            auto l = next();
            // those that need not be seen
            while (!l.empty() && !std::any_of(left.begin(), left.end(), [&](auto &sc) { return pick(sc, l); })) {
                for (auto *e : l)
                    if (!e->fresh) mc::fail("pause at " + design::show(h) + " " + h.scopes[0].type + ", expected one of " + list());
                for (auto *e : l) e->done = true;
                l = next();
            }
            if (l.empty()) mc::fail("pause at " + design::show(h) + " " + h.scopes[0].type + ", expected " + list());
            for (auto it = left.begin(); it != left.end();) {
                auto *e = pick(*it, l);
                if (!e || e->done) {
                    it++;
                    continue;
                }
                if (e->s->line != h.line || e->s->file != h.file) mc::fail("wrong location: " + design::show(h));
                if (e->data) {
                    if (h.scopes.size() != 1) mc::fail("several instances in a report of a data breakpoint: " + design::show(h));
                    last[e->group] = (int64_t)val(*e, e->sig);
                    mc::nontrivial(mc::hash(st + design::show(h)));
                }
                e->done = true;
                // entries of the same kind at the same statement with other conditions are one
                for (auto &x : es)
                    if (&x != e && x.s == e->s && x.copy == e->copy && x.data == e->data && x.group == e->group && !x.data) x.done = true;
                arrived = std::min(arrived, e->s->order);
                it = left.erase(it);
            }
            // what has been passed over must be at the statement of the report
            if (!left.empty())
                for (auto *e : next())
                    if (e->s->order == l[0]->s->order && !e->data && !e->fresh) mc::fail("a report leaves out a copy of its statement: " + design::show(h));
        }
        pos = arrived;
    }
    void edge(const Vals &v) {
        for (auto &e : es) e.done = e.fresh = false;
        pos.reset();
        std::string t = "edge:";
        for (auto &p : v) t += " " + p.first + "=" + std::to_string(p.second);
        mc::trace(t);
        check(w.edge(v));
    }
    void resume() {
        mc::trace("continue");
        check(w.send(1, world::r_cmd("continue")));
    }
    void drop_groups() {
        for (auto it = last.begin(); it != last.end();) {
            bool used = false;
            for (auto &e : es) used = used || (e.data && e.group == it->first);
            it = used ? std::next(it) : last.erase(it);
        }
    }
    void compare_set() {
        auto evs = w.send(1, world::r_info("breakpoints"));
        std::multiset<std::string> got, want;
        for (auto &b : evs.back().msg["payload"]["breakpoints"].a)
            got.insert(std::to_string(b["id"].u()) + " " + std::to_string(b["type"].u()) + " " + b["var"].str());
        for (auto &e : es) {
            auto sig = e.idx >= 0 ? "arr[" + std::to_string(e.idx) + "]" : e.sig;
            want.insert(std::to_string(e.s->id) + (e.data ? " 2 " + sig : " 1 "));
        }
        if (got != want) {
            std::string g, x;
            for (auto &s : got) g += s + "; ";
            for (auto &s : want) x += s + "; ";
            mc::fail("inserted are {" + g + "}, requested {" + x + "}");
        }
    }
};
struct Op {
    enum K { None, Add, Info, Bad, Remove, RemoveBad, Clear, NAdd, NRemove, Unmonitor } k = None;
    std::string var, inst;
    uint32_t line = 0;
    UCond cond = {};
    int copy = 0;
};
static std::vector<Op> ops(int copies) {
    std::vector<Op> r;
    r.push_back({});
    r.push_back({Op::Add, "x", "dut", 1});
    r.push_back({Op::Add, "x", "dut", 2, uc_lit("b")});
    r.push_back({Op::Add, "arr[1]", "dut", 3});
    r.push_back({Op::Add, "q", "dut.c0", 11});
    r.push_back({Op::Add, "q", "dut.c1", 10, uc_or("r", "p")});
    r.push_back({Op::Add, "arr[0]", "dut", 1, uc_lit("b", false)});
    r.push_back({Op::Remove, "", "dut", 1});
    r.push_back({Op::Remove, "", "dut", 2});
    r.push_back({Op::Remove, "", "dut.c0", 11});
    r.push_back({Op::Clear});
    r.push_back({Op::NAdd, "", "dut", 1});
    r.push_back({Op::NRemove, "", "dut", 1});
    r.push_back({Op::NAdd, "", "dut.c0", 11, uc_lit("r", false)});
    if (copies > 1) {
        r.push_back({Op::Add, "x", "dut", 1, {}, 1});
        r.push_back({Op::Add, "q", "dut.c0", 11, {}, 1});
    }
    // these change nothing
    r.push_back({Op::Info, "x", "dut", 1});
    r.push_back({Op::Info, "q", "dut.c1", 11, uc_lit("r")});
    r.push_back({Op::Bad, "x", "dut", 1, {"nosuch", {}}});
    r.push_back({Op::Bad, "x", "dut", 1, {"a &&", {}}});
    r.push_back({Op::Bad, "nosuch", "dut", 1});
    r.push_back({Op::Bad, "arr[5]", "dut", 3});
    r.push_back({Op::Bad, "x", "", 1});
    r.push_back({Op::RemoveBad});
    r.push_back({Op::Unmonitor, "0"});
    r.push_back({Op::Unmonitor, "1"});
    return r;
}
static const size_t NOPS = 26;
static bool quiet(const Op &o) { return o.k == Op::Info || o.k == Op::Bad || o.k == Op::RemoveBad || o.k == Op::Unmonitor; }

static void perform(Machine &m, const Op &o) {
    auto id = [&] { return o.inst.empty() ? 999 : m.stmt(o.inst, o.line).id; };
    auto req = [&](const char *action) {
        J p = J::obj({{"action", action}});
        if (!o.var.empty()) p.set("var_name", o.var);
        if (o.line || o.k == Op::RemoveBad) p.set("breakpoint-id", o.k == Op::RemoveBad ? 999 : id());
        if (!o.cond.text.empty()) p.set("condition", o.cond.text);
        if (m.copies > 1) p.set("namespace_id", o.copy);
        return world::request("data-breakpoint", p);
    };
    auto send = [&](const J &j) {
        mc::trace("request " + j.dump());
        auto evs = m.w.send(1, j);
        return status(evs);
    };
    switch (o.k) {
        case Op::None:
            return;
        case Op::Add: {
            if (send(req("add")) != "success") mc::fail("valid data breakpoint rejected");
            auto add = [&](uint32_t line, const char *sig, int idx) {
                DEntry e{&m.stmt(o.inst, line), o.copy, true, sig, idx, o.cond, std::to_string(o.copy) + o.inst + o.var, false, false};
                for (auto &x : m.es)
                    if (x.data && x.s == e.s && x.copy == e.copy && x.group == e.group && x.cond.text == e.cond.text) return;
                e.fresh = m.pos && e.s->order == *m.pos;
                m.es.push_back(e);
            };
            if (o.var == "x") {
                add(1, "sx0", -1);
                add(2, "sx1", -1);
            } else if (o.var == "q") {
                add(10, "q", -1);
                add(11, "q", -1);
            } else
                add(3, o.var == "arr[0]" ? "arr[0]" : "arr[1]", o.var == "arr[0]" ? 0 : 1);
            break;
        }
        case Op::Info:
            if (send(req("info")) != "success") mc::fail("valid data breakpoint reported as invalid");
            break;
        case Op::Bad:
            if (send(req("info")) != "error") mc::fail("invalid data breakpoint reported as valid");
            if (send(req("add")) != "error") mc::fail("invalid data breakpoint accepted");
            break;
        case Op::Remove:
        case Op::RemoveBad: {
            auto st = send(req("remove"));
            if (st.empty() || (o.k == Op::Remove && st != "success")) mc::fail("remove answered with '" + st + "'");
            if (o.k == Op::Remove) {
                auto *s = &m.stmt(o.inst, o.line);
                m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return e.data && e.s == s; }), m.es.end());
            }
            break;
        }
        case Op::Clear:
            if (send(req("clear")) != "success") mc::fail("clear fails");
            m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return e.data; }), m.es.end());
            break;
        case Op::NAdd:
        case Op::NRemove: {
            auto *s = &m.stmt(o.inst, o.line);
            if (send(world::r_bpid(o.k == Op::NAdd ? "add" : "remove", s->id, o.cond.text)) != "success") mc::fail("normal breakpoint request fails");
            if (o.k == Op::NRemove) {
                m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return !e.data && e.s == s; }), m.es.end());
                break;
            }
            for (int c = 0; c < m.copies; c++) {
                bool there = false;
                for (auto &x : m.es) there = there || (!x.data && x.s == s && x.copy == c);
                if (there) continue;
                m.es.push_back({s, c, false, "", -1, o.cond, "", m.pos && s->order == *m.pos, false});
            }
            break;
        }
        case Op::Unmonitor: {
            // a client removing a monitor it has not added
            J p = J::obj({{"action_type", "remove"}, {"track_id", std::stoi(o.var)}});
            if (m.copies > 1) p.set("namespace_id", o.copy);
            send(world::request("monitor", p));
            break;
        }
    }
    m.drop_groups();
    m.compare_set();
}
static const uint64_t PAT[] = {0x9d2c5680, 0x13198a2e, 0xb5470917};
static size_t tops() { return 2 * 2 * 3 * NOPS; }
static void body(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool at_pause = top >> 1 & 1;  // requests at the first pause of the edges
    int pat = (int)((top >> 2) % 3);
    size_t first = (top >> 2) / 3;
    auto all = ops(copies);
    if (first >= all.size()) return;
    if (!mc::thorough() && pat != (at_pause ? 0 : 1)) return;
    auto kit = kit3(copies);
    World w;
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_signal("tb.clk", 1);
    std::vector<std::string> sigs;
    for (auto &t : kit.tops) {
        v.add_module("dut", t);
        for (auto *s : {"clk", "a", "b", "sx0", "sx1", "idx"}) {
            v.add_signal(t + "." + s, s[0] == 'c' ? 1 : 8);
            if (s[0] != 'c') sigs.push_back(t + "." + s);
        }
        v.add_array(t + ".arr", {2}, 8);
        sigs.push_back(t + ".arr[0]");
        sigs.push_back(t + ".arr[1]");
        for (auto *c : {".c0", ".c1"}) {
            v.add_module("child", t + c);
            for (auto *s : {"clk", "p", "q", "r"}) {
                v.add_signal(t + c + "." + s, s[0] == 'c' ? 1 : 8);
                if (s[0] != 'c') sigs.push_back(t + c + "." + s);
            }
        }
    }
    w.cfg.clk = kit.tops[0] + ".clk";
    bring_up(w, kit);
    Machine m{w, kit, copies, {}, {}, {}};
    // at the pauses: a normal breakpoint that hits at every edge
    if (at_pause) perform(m, {Op::NAdd, "", "dut", 3});
    int slots = mc::thorough() ? 4 : 3;
    Vals vals;
    auto drive = [&](int e) {
        // small values, about half of the signals keep theirs from edge to edge
        int n = 0;
        for (auto &s : sigs) {
            auto bits = mc::hash(std::to_string(PAT[pat]) + s + std::to_string(e) + std::to_string(n++)) >> 13;
            bool flag = s.back() == 'a' || s.back() == 'b' || s.back() == 'p' || s.back() == 'r' || s.substr(s.size() - 3) == "idx";
            if (flag)
                vals[s] = (bits & 3) != 0;
            else if (e == 0 || (bits & 1))
                vals[s] = 5 + (bits >> 1 & 1);
        }
    };
    bool started = false;
    int quiets = 0;
    auto pick = [&](int s) -> const Op & {
        while (true) {
            auto o = s == 0 ? first : (size_t)mc::choose((int)all.size());
            return all[o];
        }
    };
    for (int s = 0; s < slots; s++) {
        const Op *o = nullptr;
        if (!at_pause) {
            o = &pick(s);
            if (quiet(*o) && ++quiets > 1) return;
            perform(m, *o);
        }
        if (!started) w.send(1, world::r_cmd("continue"));
        started = true;
        drive(s);
        m.edge(vals);
        if (at_pause) {
            if (!w.paused()) mc::fail("no pause at the normal breakpoint");
            o = &pick(s);
            if (quiet(*o) && ++quiets > 1) return;
            perform(m, *o);
        }
        for (int i = 0; i < 40 && w.paused(); i++) m.resume();
        if (w.paused()) mc::fail("pauses without end");
    }
    for (int e = 0; e < 3; e++) {
        drive(slots + e);
        m.edge(vals);
        for (int i = 0; i < 40 && w.paused(); i++) m.resume();
        if (w.paused()) mc::fail("pauses without end");
    }
    mc::evaluation();
    mc::counter("pauses", m.pauses);
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C14";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
