// C02: step-over visits every enabled statement in order; continue goes back to breakpoints.
// build: plain
#include "model.hh"
using namespace model;

static const std::vector<std::pair<const char *, int>> locs = {
    {"dut.py", 1}, {"dut.py", 2}, {"dut.py", 3}, {"dut.py", 4}, {"child.py", 10}, {"child.py", 11}};
// top: copies x single x breakpoint sets (none, each location alone, all) x user condition
// then the design with similar locations: copies x single x breakpoints by id (none, each, all)
static const size_t plain_tops = 2 * 2 * 8 * 2;
static size_t tops() { return plain_tops + 2 * 2 * 9; }

static void set_up(World &w, const design::Kit &kit, Ref &ref, int set, bool cond) {
    for (int i = 0; i < 6; i++) {
        if (!(set == 7 || set == i + 1)) continue;
        // stepping does not depend on the user condition, which holds at some edges only
        UCond c = cond ? uc_lit(locs[i].first[0] == 'd' ? "x" : "q") : uc_true();
        must(w, world::r_bp("add", locs[i].first, (uint64_t)locs[i].second, 0, c.text));
        for (auto *s : ref.at(locs[i].first, (uint32_t)locs[i].second)) ref.insert(*s, c);
    }
}
static Vals values(const design::Kit &kit, int bits) {
    Vals v;
    int n = 0;
    for (auto &t : kit.tops)
        for (auto *s : {".a", ".b", ".c0.p", ".c1.p"}) v[t + s] = bits >> n++ & 1;
    for (auto &t : kit.tops) {
        v[t + ".x"] = v[t + ".a"] ^ v[t + ".b"];
        v[t + ".c0.q"] = v[t + ".b"];
        v[t + ".c1.q"] = !v[t + ".a"];
    }
    return v;
}
static void drive(Ref &ref, const Vals &v, const Vals &v2, int depth, const std::string &what) {
    ref.go(mc::choose(2) ? Step : Cont);
    bool p = ref.edge(v);
    int edges = 1;
    uint64_t h = 0;
    for (int d = 0; d < depth; d++) {
        mc::evaluation();
        while (!p && edges < 3) {
            edges++;
            p = ref.edge(edges & 1 ? v : v2);
        }
        if (!p) break;
        int c = mc::choose(2);
        p = ref.resume(c ? Step : Cont);
        h = h * 3 + (uint64_t)c;
    }
    mc::nontrivial(mc::hash(what + ":" + std::to_string(h)));
    mc::counter("pauses", ref.pauses);
}
static void alike(size_t top) {
    int copies = 1 + (int)(top & 1);
    bool single = (top >> 1) & 1;
    size_t set = (top >> 2) % 9;
    auto kit = design::kit2(copies);
    World w;
    design::bench2(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    ref.single = single;
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    for (size_t i = 0; i < kit.stmts.size(); i++) {
        if (set != 8 && set != i + 1) continue;
        must(w, world::r_bpid("add", kit.stmts[i].id));
        ref.insert(kit.stmts[i], uc_true());
    }
    int depth = mc::thorough() ? 9 : 6;
    int first = mc::choose(8);
    auto bits = [&](int b) {
        Vals v;
        int n = 0;
        for (auto &t : kit.tops)
            for (auto *s : {".u0.p", ".u1.p", ".u2.p"}) v[t + s] = b >> n++ & 1;
        return v;
    };
    static const int two[] = {0, 0x2a, 0x15, 0x3f, 0x38, 0x07, 0x33, 0x21};
    int b = copies == 1 ? first : two[first];
    drive(ref, bits(b), bits(~b), depth, "alike" + std::to_string(top) + ":" + std::to_string(first));
}
static void body(size_t top) {
    if (top >= plain_tops) return alike(top - plain_tops);
    int copies = 1 + (int)(top & 1);
    bool single = (top >> 1) & 1;
    int set = (int)(top >> 2) & 7;
    bool cond = (top >> 5) & 1;
    auto kit = design::kit1(copies);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    Ref ref(w, kit);
    ref.single = single;
    if (single) must(w, world::request("option-change", J::obj({{"single_thread_mode", true}})));
    set_up(w, kit, ref, set, cond);
    int depth = mc::thorough() ? 9 : 6;
    int first = mc::choose(copies == 1 ? 16 : 8);
    auto v = values(kit, copies == 1 ? first : (int[]){0, 0x5a, 0xa5, 0xff, 0xf0, 0x0f, 0x33, 0x81}[first]);
    auto v2 = values(kit, copies == 1 ? 15 - first : 0xff ^ first);
    drive(ref, v, v2, depth, std::to_string(top) + ":" + std::to_string(first));
}
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C02";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
