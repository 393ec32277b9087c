// C21: every signal width, value pattern, slice, bit and array index, in every order of first use,
// read through the simulator client and compared with the simulator's bits.
// build: plain
#include <cctype>

#include "explore.hh"
#include "simvpi.hh"

namespace {
using sim::Obj;
struct Bits {
    uint64_t lo = 0, hi = 0;
    bool at(uint32_t i) const { return i < 64 ? lo >> i & 1 : i < 128 ? hi >> (i - 64) & 1 : false; }
};
const std::vector<uint32_t> WIDTHS_Q = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128};
std::vector<uint32_t> widths() {
    if (!mc::thorough()) return WIDTHS_Q;
    std::vector<uint32_t> r;
    for (uint32_t i = 1; i <= 128; i++) r.push_back(i);
    return r;
}
std::vector<Bits> patterns(uint32_t w) {
    std::vector<Bits> r = {{0, 0}, {~0ull, ~0ull}, {0x0123456789abcdefull, 0xfedcba9876543210ull},
                           {0xaaaaaaaaaaaaaaaaull, 0xaaaaaaaaaaaaaaaaull}, {1, 0}};
    Bits top;
    (w > 64 ? top.hi : top.lo) = 1ull << ((w - 1) % 64);
    r.push_back(top);
    for (auto &b : r) {
        if (w < 64) b.lo &= (1ull << w) - 1;
        if (w <= 64) b.hi = 0;
        else if (w < 128) b.hi &= (1ull << (w - 64)) - 1;
    }
    return r;
}
std::string hex(const Bits &b, uint32_t hi, uint32_t lo) {
    uint32_t w = hi - lo + 1;
    std::string s;
    for (int d = (int)(w + 3) / 4 - 1; d >= 0; d--) {
        int v = 0;
        for (int k = 3; k >= 0; k--) {
            auto i = lo + (uint32_t)(d * 4 + k);
            v = v * 2 + (i <= hi && b.at(i));
        }
        s += "0123456789abcdef"[v];
    }
    return (w > 1 ? "0x" : "") + s;
}
std::string lower(std::string s) {
    for (auto &c : s) c = (char)tolower(c);
    return s;
}
struct Rig {
    std::shared_ptr<sim::Vpi> vpi = std::make_shared<sim::Vpi>();
    std::unique_ptr<hgdb::RTLSimulatorClient> c;
    std::string top;
    bool deep;
    Rig(const std::string &product, bool deep) : deep(deep) {
        vpi->product = product;
        vpi->args = {"sim"};
        vpi->defname = true;
        vpi->on_bad_handle = [](const std::string &w) { mc::fail(w); };
        vpi->add_module("tb", "tb");
        top = deep ? "tb.wrap.d0" : "tb.d0";
        if (deep) vpi->add_module("wrap", "tb.wrap");
        vpi->add_module("dut", top);
        vpi->add_module("child", top + ".c0");
        vpi->add_module("child", top + ".c1");
    }
    void connect() {
        c = std::make_unique<hgdb::RTLSimulatorClient>(vpi);
        auto m = c->compute_instance_mapping({"dut"}, true);
        if (m.size() != 1) mc::fail("the design is not found in the hierarchy");
        c->set_mapping(m[0].first, m[0].second);
    }
    // front name and absolute name for the same signal
    std::string abs(const std::string &n) const { return "$root." + top + n.substr(3); }
};
Bits get(const Obj *o) { return {o->value, o->value_hi}; }

void present(Rig &r, const std::string &name, const Bits &b, uint32_t hi, uint32_t lo) {
    uint32_t w = hi - lo + 1;
    mc::evaluation();
    mc::note(name);
    auto s = r.c->get_str_value(name);
    auto want = hex(b, hi, lo);
    if (!s || lower(*s) != want) mc::fail(name + " reads as '" + (s ? *s : "(nothing)") + "', expected " + want);
    if (hi < 32) {
        auto v = r.c->get_value(name);
        uint64_t e = b.lo >> lo;
        if (w < 64) e &= (1ull << w) - 1;
        if (!v) mc::fail(name + " has no integer value, expected " + std::to_string(e));
        if ((uint32_t)*v != (uint32_t)e || (w < 32 && (uint64_t)*v != e))
            mc::fail(name + " has the integer value " + std::to_string(*v) + ", expected " + std::to_string(e));
    }
    auto hd = r.c->get_handle(name);
    auto width = r.c->get_signal_width(hd);
    if (!width || *width != w) mc::fail(name + ": width " + std::to_string(width ? *width : 0) + ", expected " + std::to_string(w));
    mc::validated();
}
void absent(Rig &r, const std::string &name) {
    mc::evaluation();
    mc::note("absent " + name);
    auto v = r.c->get_value(name);
    if (v) mc::fail("'" + name + "' is not a signal but has the value " + std::to_string(*v));
    auto s = r.c->get_str_value(name);
    if (s) mc::fail("'" + name + "' is not a signal but has the value " + *s);
    mc::validated();
}

// every slice of a vector, for every pattern, whatever was read before
void vectors(uint32_t w, const std::string &product, bool deep) {
    Rig r(product, deep);
    auto *o = r.vpi->add_signal(r.top + ".x", w);
    auto *p = r.vpi->add_signal(r.top + ".c0.x", w, vpiReg);
    auto *q = r.vpi->add_signal(r.top + ".c1.x", w);
    r.vpi->bit_select = true;
    r.connect();
    auto pats = patterns(w);
    mc::state(mc::hash(product + std::to_string(w)));
    for (size_t k = 0; k < pats.size(); k++) {
        auto &b = pats[k], &b2 = pats[(k + 1) % pats.size()];
        o->value = b.lo, o->value_hi = b.hi;
        p->value = b2.lo, p->value_hi = b2.hi;
        q->value = b.lo ^ 1, q->value_hi = b.hi;
        present(r, "dut.x", get(o), w - 1, 0);
        present(r, "dut.c0.x", get(p), w - 1, 0);
        present(r, "dut.c1.x", get(q), w - 1, 0);
        present(r, r.abs("dut.x"), get(o), w - 1, 0);
        uint32_t st = (w > 40 && !mc::thorough()) ? 5 : 1;
        for (uint32_t lo = 0; lo < w; lo += (lo % 32 < 2 || lo + 3 > w) ? 1 : st)
            for (uint32_t hi = lo; hi < w; hi += (hi % 32 > 28 || hi + 3 > w) ? 1 : st) {
                auto sl = "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
                present(r, "dut.x" + sl, get(o), hi, lo);
                if (hi - lo < 3) present(r, "dut.c0.x" + sl, get(p), hi, lo);
                if (lo == 0 || hi == w - 1) present(r, r.abs("dut.c1.x") + sl, get(q), hi, lo);
                mc::transition();
            }
        if (w > 1)
            for (uint32_t i = 0; i < w; i++) {
                present(r, "dut.x[" + std::to_string(i) + "]", get(o), i, i);
                present(r, "dut.c1.x[" + std::to_string(i) + "]", get(q), i, i);
            }
        // out of range, before and after the ones in range
        for (uint32_t hi : {w, w + 1, w + 31, 4294967294u, 4294967295u})
            for (uint32_t lo : {0u, w - 1, w, 4294967295u}) {
                if (lo > hi) continue;
                absent(r, "dut.x[" + std::to_string(hi) + ":" + std::to_string(lo) + "]");
            }
        absent(r, "dut.x[" + std::to_string(w) + "]");
        absent(r, "dut.x[4294967296:0]");
        absent(r, "dut.x[18446744073709551616:0]");
        absent(r, "dut.x[4294967296]");
        absent(r, "dut.x[99999999999999999999999]");
        mc::nontrivial(mc::hash(product + std::to_string(deep) + std::to_string(w) + ":" + std::to_string(k)));
    }
}
// arrays of up to three dimensions
void arrays(int shape, const std::string &product, bool named) {
    static const std::vector<std::vector<uint32_t>> DIMS = {{1}, {2}, {4}, {2, 3}, {3, 1}, {2, 2, 2}, {1, 3, 2}};
    for (uint32_t w : {1u, 4u, 9u, 32u, 70u}) {
        Rig r(product, shape & 1);
        auto &dims = DIMS[(size_t)shape];
        for (auto *n : {".arr", ".c0.arr"}) r.vpi->add_array(r.top + n, dims, w, named);
        r.vpi->add_signal(r.top + ".arr2", 8)->value = 7;
        r.vpi->bit_select = true;
        r.connect();
        // fill
        uint64_t seed = 12345;
        std::vector<std::pair<std::string, Obj *>> leaves;
        std::function<void(const std::string &, Obj *)> fill = [&](const std::string &n, Obj *o) {
            if (o->k == Obj::Array) {
                for (size_t i = 0; i < o->children.size(); i++) fill(n + "[" + std::to_string(i) + "]", o->children[i]);
                return;
            }
            leaves.emplace_back(n, o);
        };
        fill("dut.arr", r.vpi->find(r.top + ".arr"));
        fill("dut.c0.arr", r.vpi->find(r.top + ".c0.arr"));
        for (int round = 0; round < 3; round++) {
            for (auto &l : leaves) {
                seed = seed * 6364136223846793005ull + 1442695040888963407ull;
                l.second->value = seed;
                l.second->value_hi = ~seed;
                if (w < 64) l.second->value &= (1ull << w) - 1;
                if (w <= 64) l.second->value_hi = 0;
                else l.second->value_hi &= (1ull << (w - 64)) - 1;
            }
            auto order = leaves;
            if (round == 1) std::reverse(order.begin(), order.end());
            for (auto &l : order) {
                present(r, l.first, get(l.second), w - 1, 0);
                present(r, r.abs(l.first), get(l.second), w - 1, 0);
                for (uint32_t lo = 0; lo < w; lo += 1 + w / 8)
                    for (uint32_t hi = lo; hi < w; hi += 1 + w / 8)
                        present(r, l.first + "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]", get(l.second), hi, lo);
                if (w > 1)
                    for (uint32_t i = 0; i < w; i += 1 + w / 8) present(r, l.first + "[" + std::to_string(i) + "]", get(l.second), i, i);
                absent(r, l.first + "[" + std::to_string(w) + ":0]");
                absent(r, l.first + "[" + std::to_string(w) + "]");
                absent(r, l.first + "[0][0]");
                absent(r, l.first + ".x");
                mc::transition();
            }
            // one index out of range at each position
            for (size_t d = 0; d < dims.size(); d++)
                for (std::string bad : {std::to_string(dims[d]), std::to_string(dims[d] + 1), std::string("4294967296"), std::string("4294967297"), std::string("-1"), std::string("a"),
                                        std::string("18446744073709551616"), std::string("2147483648")}) {
                    std::string n = "dut.arr";
                    for (size_t e = 0; e < dims.size(); e++) n += "[" + (e == d ? bad : std::string("0")) + "]";
                    absent(r, n);
                    absent(r, n + "[0:0]");
                }
            auto a = r.c->get_value("dut.arr2");
            if (!a || *a != 7) mc::fail("dut.arr2 is not read");
        }
        mc::nontrivial(mc::hash(product + std::to_string(shape) + std::to_string(named) + "w" + std::to_string(w)));
    }
}
// strings over name fragments: only the ones that denote a signal have a value
void names(const std::string &product, size_t first, bool bitsel) {
    static const std::vector<std::string> FRAG = {"dut", ".", "x", "c0", "arr", "[0]", "[1]", "[3:0]", "[2:2]", "[4:0]", "[:]", "[", "]", "nope", ":", "$root", "tb", "d0", " ", "0"};
    Rig r(product, false);
    r.vpi->bit_select = bitsel;
    r.vpi->add_signal(r.top + ".x", 4)->value = 0xa;
    r.vpi->add_signal(r.top + ".c0.x", 4)->value = 0x5;
    auto *arr = r.vpi->add_array(r.top + ".arr", {1}, 4, true);
    arr->children[0]->value = 0xc;
    auto *carr = r.vpi->add_array(r.top + ".c0.arr", {1}, 4, true);
    carr->children[0]->value = 0x6;
    r.connect();
    std::map<std::string, std::tuple<uint64_t, uint32_t, uint32_t>> ok;
    for (std::string pre : {"dut.", "$root.tb.d0.", "tb.d0."}) {
        auto add = [&](const std::string &n, uint64_t v, bool elem) {
            ok[pre + n] = {v, 3, 0};
            ok[pre + n + "[3:0]"] = {v, 3, 0};
            ok[pre + n + "[2:2]"] = {v, 2, 2};
            (void)elem;
            if (bitsel) {
                ok[pre + n + "[0]"] = {v, 0, 0};
                ok[pre + n + "[1]"] = {v, 1, 1};
            }
        };
        add("x", 0xa, false);
        add("c0.x", 0x5, false);
        add("arr[0]", 0xc, true);
        add("c0.arr[0]", 0x6, true);
    }
    // what an array as a whole or a doubly selected vector reads as is the simulator's business
    int len = mc::thorough() ? 6 : 5;
    std::function<void(const std::string &, int)> rec = [&](const std::string &n, int left) {
        auto it = ok.find(n);
        auto d = n.size() >= 3 ? n.substr(n.size() - 3) : n;
        bool skip = d == "arr" || n.find("arr[3:0]") != n.npos || n.find("arr[2:2]") != n.npos || n.find("]0") != n.npos ||
                    n.find("][") != n.npos;
        if (n.find("arr[4:0]") != n.npos) skip = true;
        if (it != ok.end()) {
            auto [v, hi, lo] = it->second;
            present(r, n, Bits{v, 0}, hi, lo);
            mc::nontrivial(mc::hash(n));
        } else if (!skip) {
            bool canonical = true;
            // the debugger tolerates spelling variants that still denote the signal: dots and
            // brackets are separators
            static const std::string bad = "nope";
            if (n.find(bad) == n.npos && n.find("[:]") == n.npos && n.find("[4:0]") == n.npos) canonical = false;
            if (canonical) absent(r, n);
            else {
                // no crash, no foreign handle, and never anything but one of the signals' parts
                auto v = r.c->get_value(n);
                if (v) {
                    bool sig = n.find('x') != n.npos || n.find("arr") != n.npos;
                    if (!sig) mc::fail("'" + n + "' is not a signal but has the value " + std::to_string(*v));
                    if (*v < 0 || *v > 15) mc::fail("'" + n + "' has the impossible value " + std::to_string(*v));
                }
                mc::evaluation();
            }
        }
        if (!left) return;
        for (auto &f : FRAG) rec(n + f, left - 1);
    };
    mc::transition();
    mc::state(first + 1000);
    rec(FRAG[first / FRAG.size()] + FRAG[first % FRAG.size()], len - 2);
    if (first == 0)
        for (auto *n : {"", ".", "dut", "dut.", "dut.c0", "dut.c0[3:0]", "dut[0]", "other.x", "$root", "$root.", "$root.tb", "$root.tb.d0", "$root.tb.nope", "[0]", "[3:0]", "dut.x[", "dut.x]"}) {
            if (std::string(n) == "dut.x[" || std::string(n) == "dut.x]") continue;
            absent(r, n);
        }
}
// the names in a module's listing are the signals it has
void listing(const std::string &product) {
    Rig r(product, false);
    for (auto *n : {".x", ".y", ".c0.z", ".clk"}) r.vpi->add_signal(r.top + n, 8, product == "Verilator" ? vpiReg : vpiNet);
    r.connect();
    auto s = r.c->get_module_signals("dut");
    std::set<std::string> n;
    for (auto &p : s) n.insert(p.first);
    if (n != std::set<std::string>{"x", "y", "clk"}) mc::fail("signals of dut are wrong");
    for (auto &p : s)
        if (p.second != sim::Vpi::h(r.vpi->find(r.top + "." + p.first))) mc::fail("wrong handle for " + p.first);
    if (!r.c->get_module_signals("dut.nope").empty() || !r.c->get_module_signals("dut.x").empty()) mc::fail("signals of what is not a module");
    mc::transition();
}
const std::vector<std::string> PRODUCTS = {"RTLMock", "Verilator", "Icarus Verilog", "Xcelium", "Synopsys VCS"};
}  // namespace

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C21";
    size_t nv = 128 * 4, na = 7 * 2 * 5, nn = 400 * 2;
    c.tops = [=] { return nv + na + nn + PRODUCTS.size(); };
    c.body = [=](size_t t) {
        mc::transition();
        if (t < nv) {
            auto ws = widths();
            if (t / 4 >= ws.size()) return;
            // integers wider than what the product supports are not asked for
            return vectors(ws[t / 4], t & 1 ? "Xcelium" : "RTLMock", t & 2);
        }
        t -= nv;
        if (t < na) return arrays((int)(t % 7), PRODUCTS[t / 14], t / 7 % 2);
        t -= na;
        if (t < nn) return names(t & 1 ? "Xcelium" : "RTLMock", t / 2, t & 1);
        t -= nn;
        listing(PRODUCTS[t]);
    };
    return mc::main_(argc, argv, c);
}
