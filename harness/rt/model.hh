// The reference for where the simulation has to pause: positions in the execution order, inserted
// breakpoints, and what each resume command has to do. Written from the property statements only.
#pragma once
#include "design.hh"

namespace model {
using design::Hit;
using design::Kit;
using design::Lit;
using design::Stmt;
using world::Ev;
using world::J;
using world::World;
using Vals = std::map<std::string, uint64_t>;

// a user condition: disjunction of conjunctions of literals over signals of the instance
struct UCond {
    std::string text;
    std::vector<std::vector<Lit>> dnf;  // empty: true
};
inline UCond uc_true() { return {"", {}}; }
inline UCond uc_lit(const std::string &s, bool pos = true) {
    return {(pos ? "" : "!") + s, {{{s, pos}}}};
}
inline UCond uc_or(const std::string &a, const std::string &b) {
    return {a + " || " + b, {{{a, true}}, {{b, true}}}};
}

enum Mode { Cont, Step, Back, Rev };
static const char *mode_cmd[] = {"continue", "step_over", "step_back", "reverse_continue"};

struct Entry {
    uint32_t id;
    int copy;
    UCond cond;
    bool fresh = false;  // inserted while paused at this very statement: may or may not be seen
};

class Ref {
public:
    World &w;
    const Kit &k;
    std::vector<Entry> bps;
    std::vector<uint32_t> ns_id;  // copy -> namespace id
    std::optional<uint32_t> pos;  // order of the statement the simulation is paused at
    std::set<std::pair<uint32_t, int>> done;  // (id, copy) already reported in this edge
    bool single = false;          // single_thread_mode: one at a time
    Mode mode = Cont;
    uint64_t pauses = 0;

    Ref(World &w, const Kit &k) : w(w), k(k) {
        for (int i = 0; i < k.copies; i++) ns_id.push_back((uint32_t)i);
    }

    static bool lit(const Vals &v, const std::string &inst_full, const Lit &l) {
        return (v.at(inst_full + "." + l.sig) != 0) == l.pos;
    }
    bool enabled(const Stmt &s, int copy, const Vals &v) const {
        auto f = k.full(s.inst, copy);
        for (auto &l : s.cond)
            if (!lit(v, f, l)) return false;
        return true;
    }
    bool cond(const UCond &c, const Stmt &s, int copy, const Vals &v) const {
        if (c.dnf.empty()) return true;
        auto f = k.full(s.inst, copy);
        for (auto &conj : c.dnf) {
            bool all = true;
            for (auto &l : conj) all = all && lit(v, f, l);
            if (all) return true;
        }
        return false;
    }
    bool hits(const Entry &e, const Vals &v) const {
        auto &s = *k.by_id(e.id);
        return enabled(s, e.copy, v) && cond(e.cond, s, e.copy, v) && (!gate || gate(e, v));
    }
    // what else has to hold for a breakpoint to hit
    std::function<bool(const Entry &, const Vals &)> gate;
    std::vector<const Stmt *> at(const std::string &file, uint32_t line) const {
        std::vector<const Stmt *> r;
        for (auto &s : k.stmts)
            if (s.file == file && s.line == line) r.push_back(&s);
        return r;
    }
    void insert(const Stmt &s, const UCond &c, std::function<bool(int)> valid = nullptr) {
        for (int cp = 0; cp < k.copies; cp++) {
            if (valid && !valid(cp)) continue;
            bool found = false;
            for (auto &e : bps)
                if (e.id == s.id && e.copy == cp) {
                    e.cond = c;
                    found = true;
                }
            if (!found) {
                Entry e{s.id, cp, c, false};
                // or part of the same report
                if (pos && (s.order == *pos || done.count({s.id, cp}))) e.fresh = true;
                bps.push_back(e);
            }
        }
        sort();
    }
    void erase(const Stmt &s) {
        bps.erase(std::remove_if(bps.begin(), bps.end(), [&](auto &e) { return e.id == s.id; }), bps.end());
    }
    void sort() {
        std::stable_sort(bps.begin(), bps.end(), [&](auto &a, auto &b) {
            return k.by_id(a.id)->order < k.by_id(b.id)->order;
        });
    }
    int copy_of(uint32_t ns) const {
        for (size_t i = 0; i < ns_id.size(); i++)
            if (ns_id[i] == ns) return (int)i;
        return -1;
    }
    void new_edge() {
        pos.reset();
        done.clear();
        maybe.clear();
        for (auto &e : bps) e.fresh = false;
    }

    // one hit message against the truth that does not depend on the mode
    void check_hit_basic(const Hit &h) {
        if (h.scopes.empty()) mc::fail("hit without instances: " + show(h));
        if (h.time != w.vpi->time) mc::fail("hit reports time " + std::to_string(h.time) + ", simulation time is " + std::to_string(w.vpi->time));
        std::set<std::pair<uint32_t, int>> seen;
        const Stmt *first = nullptr;
        for (auto &sc : h.scopes) {
            auto *s = k.by_id(sc.bp_id);
            int cp = copy_of(sc.ns_id);
            if (!s || cp < 0) mc::fail("hit names unknown breakpoint or namespace: " + show(h));
            if (!seen.insert({sc.bp_id, cp}).second) mc::fail("instance reported twice in one hit: " + show(h));
            if (s->line != h.line || s->file != h.file || s->col != h.col) mc::fail("hit location does not match breakpoint " + std::to_string(sc.bp_id) + ": " + show(h));
            if (sc.inst_name != k.full(s->inst, cp)) mc::fail("hit names instance " + sc.inst_name + " instead of " + k.full(s->inst, cp));
            if (!first) first = s;
            if (first->cond_key() != s->cond_key()) mc::fail("instances with different enable conditions in one hit: " + show(h));
        }
    }
    // the hits still to come in this edge when running forward: (entry, optional)
    std::vector<std::pair<Entry, bool>> forward(const Vals &v) const {
        std::vector<std::pair<Entry, bool>> r;
        for (auto &e : bps) {
            auto o = k.by_id(e.id)->order;
            if (pos && o < *pos) continue;
            if (done.count({e.id, e.copy}) && !e.fresh) continue;
            if (!hits(e, v)) continue;
            r.push_back({e, (pos && e.fresh) || maybe.count({e.id, e.copy})});
        }
        return r;
    }
    // where stepping goes: statements with the copies in which they are enabled
    std::vector<std::pair<const Stmt *, std::set<int>>> steps(const Vals &v) const {
        std::vector<std::pair<const Stmt *, std::set<int>>> r;
        for (auto &s : k.stmts) {
            std::set<int> c;
            for (int i = 0; i < k.copies; i++)
                if (enabled(s, i, v)) c.insert(i);
            if (!c.empty()) r.push_back({&s, c});
        }
        return r;
    }
    // the copies of the current statement that may or may not still be reported
    std::set<std::pair<uint32_t, int>> maybe;
    void arrive(const Hit &h, bool forward_dir, bool step) {
        // position: the first statement of the report
        const Stmt *p = nullptr;
        for (auto &sc : h.scopes) {
            auto *s = k.by_id(sc.bp_id);
            if (!p || s->order < p->order) p = s;
        }
        pos = p->order;
        maybe.clear();
        if (!forward_dir)
            // what comes after it will be executed again
            for (auto it = done.begin(); it != done.end();)
                it = k.by_id(it->first)->order >= *pos ? done.erase(it) : std::next(it);
        for (auto &sc : h.scopes) done.insert({sc.bp_id, copy_of(sc.ns_id)});
        if (step)
            for (int c = 0; c < k.copies; c++) done.insert({p->id, c});
        if (!forward_dir)
            for (int c = 0; c < k.copies; c++) maybe.insert({p->id, c});
        for (auto &e : bps) {
            if (step && e.id == p->id) e.fresh = false;
            for (auto &sc : h.scopes)
                if (sc.bp_id == e.id && copy_of(sc.ns_id) == e.copy) e.fresh = false;
        }
        pauses++;
        if (forward_dir || mode == Back) {
            rev_done.clear();
            for (auto &sc : h.scopes) rev_done.insert(copy_of(sc.ns_id));
        }
    }
    static std::string list(const std::vector<std::pair<Entry, bool>> &l) {
        std::string s;
        for (auto &e : l) s += std::to_string(e.first.id) + "/" + std::to_string(e.first.copy) + (e.second ? "? " : " ");
        return s.empty() ? "none" : s;
    }

    void check_forward_hit(const Hit &h, const Vals &v) {
        auto l = forward(v);
        // the report is the next hits of the list; optional ones may be left out; the copies of
        // one statement may come in any order
        std::set<std::pair<uint32_t, int>> rep;
        for (auto &sc : h.scopes) rep.insert({sc.bp_id, copy_of(sc.ns_id)});
        size_t i = 0;
        auto left = rep;
        while (!left.empty()) {
            if (i >= l.size()) mc::fail("pause at " + show(h) + " although only these hits remain: " + list(l));
            // the group of entries with the same id
            size_t j = i;
            std::set<std::pair<uint32_t, int>> grp;
            bool all_opt = true;
            while (j < l.size() && l[j].first.id == l[i].first.id) {
                grp.insert({l[j].first.id, l[j].first.copy});
                all_opt = all_opt && l[j].second;
                j++;
            }
            size_t n = 0;
            for (auto &g : grp) n += left.erase(g);
            if (n == 0 && !all_opt) mc::fail("hit at " + show(h) + " skips or misorders; expected next: " + list(l));
            if (n < grp.size() && !left.empty() && !all_opt) mc::fail("hit at " + show(h) + " leaves out a copy of a statement; expected next: " + list(l));
            i = j;
        }
        if (single && rep.size() != 1) mc::fail("single thread mode reports several instances at once: " + show(h));
        arrive(h, true, false);
    }
    void check_step_hit(const Hit &h, const Vals &v, bool dir_forward) {
        auto all = steps(v);
        if (!dir_forward) std::reverse(all.begin(), all.end());
        const std::pair<const Stmt *, std::set<int>> *exp = nullptr;
        std::set<int> same;  // other copies of the current statement (either is fine)
        for (auto &s : all) {
            if (pos && s.first->order == *pos) {
                for (auto c : s.second)
                    if (!done.count({s.first->id, c})) same.insert(c);
                continue;
            }
            if (pos && (dir_forward ? s.first->order < *pos : s.first->order > *pos)) continue;
            exp = &s;
            break;
        }
        auto *s = k.by_id(h.scopes[0].bp_id);
        std::set<int> rep;
        for (auto &sc : h.scopes) {
            if (sc.bp_id != s->id) mc::fail("a step reports several statements: " + show(h));
            rep.insert(copy_of(sc.ns_id));
        }
        if (pos && s->order == *pos) {
            for (auto c : rep)
                if (!same.count(c)) mc::fail("step stays at " + show(h));
        } else {
            if (!exp) mc::fail("step to " + show(h) + " although no enabled statement is left in this edge");
            if (exp->first != s) mc::fail("step to " + show(h) + " instead of " + exp->first->loc() + " (" + std::to_string(exp->first->id) + ")");
            if (rep != exp->second) mc::fail("step reports the wrong copies: " + show(h));
        }
        arrive(h, dir_forward, true);
    }
    bool step_left(const Vals &v) const {
        for (auto &s : steps(v))
            if (!pos || s.first->order > *pos) return true;
        return false;
    }

    // hits among the messages for one connection
    static std::vector<Hit> hits_in(const std::vector<Ev> &evs, uint64_t conn = 1) {
        std::vector<Hit> r;
        for (auto &e : evs)
            if (e.conn == conn && design::is_hit(e.msg)) r.push_back(design::parse_hit(e.msg));
        return r;
    }

    // what happened after the simulation was let go in mode m (at a pause or at a new edge);
    // before: values and history at that moment. Returns true if it is paused now.
    bool check(const std::vector<Ev> &evs) {
        auto hs = hits_in(evs);
        bool p = w.paused();
        if (hs.size() > 1) mc::fail("several hit messages for one pause: " + show(hs[0]) + show(hs[1]));
        if (p && hs.empty()) mc::fail("the simulation is paused without a hit message");
        if (!p && !hs.empty()) mc::fail("hit message without a pause: " + show(hs[0]));
        mc::validated();
        mc::state(mc::hash(std::to_string(pos ? *pos : 999) + (p ? "p" : "r") + std::to_string((int)mode) + (hs.empty() ? "" : show(hs[0]))));
        if (p) check_hit_basic(hs[0]);
        auto v = w.vpi->values();
        if (mode == Cont) {
            if (p)
                check_forward_hit(hs[0], v);
            else
                for (auto &e : forward(v))
                    if (!e.second) mc::fail("the edge ended without the hits " + list(forward(v)));
        } else if (mode == Step) {
            if (p)
                check_step_hit(hs[0], v, true);
            else if (step_left(v))
                mc::fail("step-over ran past the enabled statements of this edge");
        }
        if (!p) pos.reset();
        return p;
    }
    // step back / reverse continue; pre: values before, prev: values of the previous edge if the
    // simulator can rewind to it
    std::set<int> rev_done;
    bool check_back(const std::vector<Ev> &evs, const Vals &pre, const std::vector<World::Snap> &hist) {
        auto hs = hits_in(evs);
        if (!w.paused()) mc::fail(std::string(mode_cmd[mode]) + " let the simulation run on");
        if (hs.size() != 1) mc::fail(std::to_string(hs.size()) + " hit messages after " + mode_cmd[mode]);
        auto &h = hs[0];
        mc::validated();
        check_hit_basic(h);
        auto p0 = *pos;
        if (mode == Rev && k.by_id(h.scopes[0].bp_id)->order == p0 && w.hist.size() == hist.size() && single) {
            // one at a time: the other copies of the current statement
            for (auto &sc : h.scopes) {
                bool ok = k.by_id(sc.bp_id)->order == p0 && !rev_done.count(copy_of(sc.ns_id));
                bool hit = false;
                for (auto &e : bps) hit = hit || (e.id == sc.bp_id && e.copy == copy_of(sc.ns_id) && hits(e, pre));
                if (!ok || !hit) {
                    ok = false;
                    // or there is nothing left before it, then it stays
                    for (auto &e : bps) ok = ok || (k.by_id(e.id)->order < p0 && hits(e, pre));
                    if (ok || (w.cfg.rewind && hist.size() > 1)) mc::fail("reverse-continue stays at " + show(h));
                }
            }
            for (auto &sc : h.scopes) rev_done.insert(copy_of(sc.ns_id));
            arrive(h, false, false);
            return true;
        }
        rev_done.clear();
        for (auto &sc : h.scopes) rev_done.insert(copy_of(sc.ns_id));
        // the closest preceding one in this edge, then in the edges before
        Vals v = pre;
        std::optional<uint32_t> from = p0;
        int n = (int)hist.size() - 1;
        int rew = 0;
        while (true) {
            const Stmt *best = nullptr;
            std::set<int> copies;
            if (mode == Back) {
                auto all = steps(v);
                for (auto &s : all)
                    if (!from || s.first->order < *from) {
                        best = s.first;
                        copies = s.second;
                    }
            } else {
                for (auto &e : bps) {
                    auto *s = k.by_id(e.id);
                    // another copy of the current statement may come first or be left out
                    if (from && s->order >= *from) continue;
                    if (!hits(e, v)) continue;
                    if (s != best) copies.clear();
                    best = s;
                    copies.insert(e.copy);
                }
            }
            if (best) {
                // the report: that statement, in one of its copies at least; a reverse report may
                // also have further instances of the location that hit right before it
                std::set<uint32_t> ids;
                for (auto &sc : h.scopes) ids.insert(sc.bp_id);
                if (!ids.count(best->id))
                    mc::fail(std::string(mode_cmd[mode]) + " goes to " + show(h) + " instead of " + best->loc() + " (" + std::to_string(best->id) + ")");
                for (auto &sc : h.scopes) {
                    auto *s = k.by_id(sc.bp_id);
                    int c = copy_of(sc.ns_id);
                    if (s->order > best->order) mc::fail(std::string(mode_cmd[mode]) + " reports a later statement: " + show(h));
                    if (mode == Back) {
                        if (s != best || !copies.count(c)) mc::fail("step-back reports a statement that is not enabled or not the closest: " + show(h));
                    } else {
                        bool ok = false;
                        for (auto &e : bps) ok = ok || (e.id == s->id && e.copy == c && hits(e, v));
                        if (!ok) mc::fail("reverse-continue reports a breakpoint that does not hit: " + show(h));
                    }
                }
                if (mode == Rev) {
                    // nothing between the reported ones may be skipped
                    uint32_t lo = best->order;
                    for (auto id : ids) lo = std::min(lo, k.by_id(id)->order);
                    for (auto &e : bps) {
                        auto *s = k.by_id(e.id);
                        if (s->order <= lo || s->order >= best->order) continue;
                        if (hits(e, v) && !ids.count(e.id)) mc::fail("reverse-continue skips a hit: " + show(h));
                    }
                }
                if ((int)hist.size() - (int)w.hist.size() != rew) mc::fail(std::string(mode_cmd[mode]) + " rewound the simulation " + std::to_string(hist.size() - w.hist.size()) + " edges, expected " + std::to_string(rew));
                if (rew) { pos.reset(); done.clear(); }
                arrive(h, false, mode == Back);
                return true;
            }
            if (w.cfg.rewind && n > 0) {
                n--;
                rew++;
                v = hist[n].v;
                from.reset();
                continue;
            }
            break;
        }
        // cannot go back any further: stop at the beginning, never behind the current statement
        if ((int)hist.size() - (int)w.hist.size() != rew) mc::fail("rewound the wrong number of edges");
        auto lim = rew ? 0xffffffffu : p0;
        for (auto &sc : h.scopes)
            if (k.by_id(sc.bp_id)->order > lim) mc::fail(std::string(mode_cmd[mode]) + " moved forward to " + show(h));
        pos.reset();
        done.clear();
        arrive(h, false, mode == Back);
        return true;
    }

    // the first resume, from the pause at the start of the simulation
    void go(Mode m = Cont, uint64_t conn = 1) {
        if (!w.paused() || w.started) mc::fail("the simulation does not wait for the user at its start");
        mode = m;
        mc::trace(std::string("command ") + mode_cmd[m]);
        auto evs = w.send(conn, world::r_cmd(mode_cmd[m]));
        if (!w.idle() || !hits_in(evs).empty()) mc::fail("the simulation does not start running");
    }
    // resume with a command and check what happens
    bool resume(Mode m, uint64_t conn = 1) {
        mode = m;
        mc::trace(std::string("command ") + mode_cmd[m]);
        auto pre = w.vpi->values();
        auto hist = w.hist;
        auto evs = w.send(conn, world::r_cmd(mode_cmd[m]));
        for (auto &e : evs)
            if (design::is_hit(e.msg)) mc::trace("  -> " + show(design::parse_hit(e.msg)));
        if (m == Back || m == Rev) return check_back(evs, pre, hist);
        return check(evs);
    }
    bool edge(const Vals &v) {
        new_edge();
        std::string t = "edge:";
        for (auto &p : v) t += " " + p.first + "=" + std::to_string(p.second);
        mc::trace(t);
        auto evs = w.edge(v);
        for (auto &e : evs)
            if (design::is_hit(e.msg)) mc::trace("  -> " + show(design::parse_hit(e.msg)));
        return check(evs);
    }
};

// the one reply to a request, by the request's status
inline std::string status(const std::vector<Ev> &evs, uint64_t conn = 1) {
    const Ev *r = nullptr;
    for (auto &e : evs)
        if (e.conn == conn && e.msg["type"].str() != "breakpoint" && e.msg["type"].str() != "monitor") {
            if (r) mc::fail("more than one reply: " + r->text + " and " + e.text);
            r = &e;
        }
    return r ? r->msg["status"].str() : "";
}
inline void must(World &w, const J &j, const char *st = "success", uint64_t conn = 1) {
    mc::trace("request " + j.dump());
    auto e = w.send(conn, j);
    auto s = status(e, conn);
    if (s != st) mc::fail("request " + j.dump() + " answered with status '" + s + "', expected " + st);
}
inline void bring_up(World &w, const Kit &k, uint64_t conn = 1) {
    w.create();
    w.start();
    w.open(conn);
    must(w, world::r_connect(k.path), "success", conn);
}
}  // namespace model
