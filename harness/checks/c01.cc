// C01: forward runs pause exactly where they have to; with symbol tables whose statements have
// trigger lists as well.
// build: plain
#include "db.hh"
#include "model.hh"
#include "triggers.hh"
using namespace model;

static const std::vector<std::pair<const char *, int>> locs = {
    {"dut.py", 1}, {"dut.py", 2}, {"dut.py", 3}, {"dut.py", 4}, {"child.py", 10}, {"child.py", 11}};

// user conditions, per module
static std::vector<UCond> conds(const char *file) {
    if (file[0] == 'd')
        return {uc_true(), uc_lit("a"), uc_lit("b", false), uc_or("a", "b")};
    return {uc_true(), uc_lit("p"), uc_lit("q", false), uc_or("p", "q")};
}

// the signals listed for each location, by variant
static const std::vector<std::vector<std::vector<std::string>>> lists = {
    {{"a"}, {"b"}, {"a", "b"}, {}, {"p"}, {"q"}},
    {{"a", "b"}, {"a"}, {"b"}, {"b"}, {"q"}, {"p", "q"}},
    {{}, {"a", "b"}, {"b", "a"}, {"a"}, {"p", "q"}, {}}};
static const std::vector<int> subsets = {63, 3, 14, 48, 4, 17};

// every assignment after every other one
static std::vector<size_t> walk(size_t n) {
    std::vector<size_t> r;
    for (size_t i = 0; i < n; i++) {
        r.push_back(i);
        for (size_t j = i + 1; j < n; j++) {
            r.push_back(i);
            r.push_back(j);
        }
    }
    r.push_back(0);
    return r;
}

static void triggers(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool single = (top >> 1) & 1;
    int cv = (int)(top >> 2) & 1;
    size_t variant = (top >> 3) % lists.size();
    int subset = subsets[(top >> 3) / lists.size()];
    auto kit = design::kit1(copies);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    std::map<uint32_t, std::vector<std::string>> sig;
    std::map<uint32_t, std::string> text;
    for (auto &s : kit.stmts)
        for (size_t i = 0; i < locs.size(); i++)
            if (s.file == locs[i].first && (int)s.line == locs[i].second) {
                sig[s.id] = lists[variant][i];
                for (auto &n : sig[s.id]) text[s.id] += (text[s.id].empty() ? "" : " ") + n;
            }
    w.dbg->initialize_db(std::make_unique<Triggers>(kit.path, text));
    Ref ref(w, kit);
    ref.single = single;
    // the listed signals when the statement was evaluated last
    std::map<std::pair<uint32_t, int>, std::vector<uint64_t>> last;
    auto now = [&](uint32_t id, int copy, const Vals &v) {
        std::vector<uint64_t> r;
        for (auto &n : sig[id]) r.push_back(v.at(kit.full(kit.by_id(id)->inst, copy) + "." + n));
        return r;
    };
    ref.gate = [&](const Entry &e, const Vals &v) {
        if (sig[e.id].empty()) return true;
        auto it = last.find({e.id, e.copy});
        return it == last.end() || it->second != now(e.id, e.copy, v);
    };
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    for (size_t i = 0; i < locs.size(); i++) {
        if (!(subset >> i & 1)) continue;
        auto c = conds(locs[i].first)[(size_t)cv];
        must(w, world::r_bp("add", locs[i].first, (uint64_t)locs[i].second, 0, c.text));
        for (auto *s : ref.at(locs[i].first, (uint32_t)locs[i].second)) ref.insert(*s, c);
    }
    ref.go();
    // a and p have two values, b three (two of which are non-zero); the second copy's are not the same
    size_t n = copies == 1 ? 12 : 24;
    for (auto bits : walk(n)) {
        Vals v;
        for (int c = 0; c < copies; c++) {
            auto &t = kit.tops[(size_t)c];
            size_t a = bits & 1, b = bits >> 1 & 1, p = bits >> 2 & 1, x = bits / 8;
            if (copies == 1) {
                b = bits / 4;
                p = bits >> 1 & 1;
                x = 0;
            }
            if (c) {
                a = x & 1;
                b = x;
                p = !p;
            }
            v[t + ".a"] = a;
            v[t + ".b"] = b;
            v[t + ".c0.p"] = p;
            v[t + ".c1.p"] = a;
            v[t + ".c0.q"] = b;
            v[t + ".c1.q"] = 1 + p;
        }
        mc::evaluation();
        bool p = ref.edge(v);
        int guard = 0;
        while (p) {
            p = ref.resume(Cont);
            if (++guard > 100) mc::fail("does not leave the edge");
        }
        if (!w.idle()) mc::fail("the edge did not finish");
        auto all = w.vpi->values();
        for (auto &e : ref.bps) last[{e.id, e.copy}] = now(e.id, e.copy, all);
    }
    mc::nontrivial(top);
    mc::counter("pauses", ref.pauses);
}

// locations that differ in the file or the column only; every set of statements, inserted by id
static void alike(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool single = (top >> 1) & 1;
    int subset = (int)(top >> 2);
    auto kit = design::kit2(copies);
    World w;
    design::bench2(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    ref.single = single;
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    for (size_t i = 0; i < kit.stmts.size(); i++) {
        if (!(subset >> i & 1)) continue;
        must(w, world::r_bpid("add", kit.stmts[i].id));
        ref.insert(kit.stmts[i], uc_true());
    }
    ref.go();
    for (size_t bits = 0; bits < (copies == 1 ? 8u : 64u); bits++) {
        Vals v;
        size_t n = 0;
        for (auto &t : kit.tops)
            for (auto *s : {".u0.p", ".u1.p", ".u2.p"}) v[t + s] = bits >> n++ & 1;
        mc::evaluation();
        bool p = ref.edge(v);
        int guard = 0;
        while (p) {
            p = ref.resume(Cont);
            if (++guard > 100) mc::fail("does not leave the edge");
        }
        if (!w.idle()) mc::fail("the edge did not finish");
    }
    if (subset) mc::nontrivial(mc::hash("alike" + std::to_string(top)));
    mc::counter("pauses", ref.pauses);
}

// top: copies (2) x single (2) x subset of locations (64) x condition variant (4); then trigger
// lists; then similar locations
static const size_t plain_tops = 2 * 2 * 64 * 4, alike_tops = 2 * 2 * 128;
static size_t trigger_tops() { return 8 * lists.size() * subsets.size(); }
static size_t tops() { return plain_tops + trigger_tops() + alike_tops; }
static void body(size_t top) {
    if (top >= plain_tops + trigger_tops()) return alike(top - plain_tops - trigger_tops());
    if (top >= plain_tops) return triggers(top - plain_tops);
    int copies = 1 + (int)(top & 1);
    bool single = (top >> 1) & 1;
    int subset = (int)(top >> 2) & 63;
    int cv = (int)(top >> 8) & 3;
    auto kit = design::kit1(copies);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    ref.single = single;
    if (single)
        must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    // inserted in reverse so that the order of requests is not the execution order
    for (int i = 5; i >= 0; i--) {
        if (!(subset >> i & 1)) continue;
        auto c = conds(locs[i].first)[(cv + i * (cv > 0)) % 4];
        must(w, world::r_bp("add", locs[i].first, (uint64_t)locs[i].second, 0, c.text));
        for (auto *s : ref.at(locs[i].first, (uint32_t)locs[i].second)) ref.insert(*s, c);
    }
    // the signals that matter: a b (q shares b) and p of both children, in every copy
    std::vector<std::string> sig;
    for (auto &t : kit.tops)
        for (auto *s : {".a", ".b", ".c0.p", ".c1.p"}) sig.push_back(t + s);
    ref.go();
    uint64_t n = 1ull << sig.size();
    bool pause_seen = false;
    for (uint64_t bits = 0; bits < n; bits++) {
        Vals v;
        for (size_t i = 0; i < sig.size(); i++) v[sig[i]] = bits >> i & 1;
        for (auto &t : kit.tops) {
            // any non-zero value counts as true
            v[t + ".b"] *= 6;
            v[t + ".c0.p"] *= 256;
            v[t + ".c1.q"] = v[t + ".b"];
            v[t + ".c0.q"] = !v[t + ".b"];
        }
        mc::evaluation();
        bool p = ref.edge(v);
        int guard = 0;
        while (p) {
            pause_seen = true;
            p = ref.resume(Cont);
            if (++guard > 100) mc::fail("does not leave the edge");
        }
        if (!w.idle()) mc::fail("the edge did not finish");
    }
    if (pause_seen) mc::nontrivial(top);
    mc::counter("pauses", ref.pauses);
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C01";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
