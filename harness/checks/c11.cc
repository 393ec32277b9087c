// C11: every token sequence / character string up to a length, and every operator combination of
// bigger well-formed expressions, against an independent parser and evaluator.
#include "eval.hh"
#include "explore.hh"

namespace {
using I = int64_t;
using U = uint64_t;
// ---- reference ----
struct Node {
    std::string op;  // "num", "sym", binary op, or "u!" ...
    I v = 0;
    std::string sym;
    std::vector<Node> k;
};
struct Ref {
    const std::string &s;
    size_t p = 0;
    bool ok = true;
    std::set<std::string> syms;
    explicit Ref(const std::string &s) : s(s) {}
    static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
    static bool dg(char c) { return c >= '0' && c <= '9'; }
    static bool xd(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    static bool hd(char c) {
        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$';
    }
    void ws() {
        while (p < s.size() && sp(s[p])) p++;
    }
    char at(size_t i) const { return i < s.size() ? s[i] : 0; }
    // binary operator at p: text and level (0 lowest)
    std::pair<std::string, int> bin() {
        static const std::vector<std::pair<std::string, int>> two = {
            {"||", 0}, {"&&", 1}, {"==", 5}, {"!=", 5}, {"<=", 6}, {">=", 6}};
        for (auto &t : two)
            if (s.compare(p, 2, t.first) == 0) return t;
        static const std::vector<std::pair<std::string, int>> one = {
            {"|", 2}, {"^", 3}, {"&", 4}, {"<", 6}, {">", 6}, {"+", 7},
            {"-", 7}, {"*", 8}, {"/", 8}, {"%", 8}};
        for (auto &t : one)
            if (s.compare(p, 1, t.first) == 0) return t;
        return {"", -1};
    }
    Node fail() {
        ok = false;
        return {};
    }
    Node primary() {
        ws();
        Node n;
        char c = at(p);
        if (dg(c)) {
            size_t b = p;
            while (dg(at(p))) p++;
            if (at(p) == '\'') {
                if (at(p + 1) != 'h' || !xd(at(p + 2))) return fail();
                p += 2;
                size_t h = p;
                while (xd(at(p))) p++;
                n.op = "num";
                n.v = (I)strtoull(s.substr(h, p - h).c_str(), nullptr, 16);
            } else {
                n.op = "num";
                n.v = strtoll(s.substr(b, p - b).c_str(), nullptr, 10);
            }
            return n;
        }
        if (hd(c)) {
            size_t b = p;
            while (true) {
                if (!hd(at(p))) {
                    // a trailing '.' belongs to nothing
                    return fail();
                }
                while (hd(at(p)) || dg(at(p))) p++;
                while (at(p) == '[') {
                    p++;
                    if (hd(at(p))) {
                        while (hd(at(p)) || dg(at(p))) p++;
                    } else if (dg(at(p))) {
                        while (dg(at(p))) p++;
                        if (at(p) == ':') {
                            p++;
                            if (!dg(at(p))) return fail();
                            while (dg(at(p))) p++;
                        }
                    } else
                        return fail();
                    if (at(p) != ']') return fail();
                    p++;
                }
                if (at(p) != '.') break;
                p++;
            }
            n.op = "sym";
            n.sym = s.substr(b, p - b);
            syms.insert(n.sym);
            return n;
        }
        if (c == '(') {
            p++;
            n = expr(0);
            ws();
            if (!ok || at(p) != ')') return fail();
            p++;
            return n;
        }
        return fail();
    }
    Node unary() {
        ws();
        char c = at(p);
        if (c == '!' || c == '~' || c == '+' || c == '-') {
            p++;
            Node n;
            n.op = std::string("u") + c;
            n.k.push_back(unary());
            return n;
        }
        return primary();
    }
    Node expr(int lvl) {
        if (lvl == 9) return unary();
        auto l = expr(lvl + 1);
        while (ok) {
            ws();
            auto b = bin();
            if (b.second != lvl) break;
            p += b.first.size();
            Node n;
            n.op = b.first;
            auto r = expr(lvl + 1);
            n.k = {l, r};
            l = n;
        }
        return l;
    }
    Node parse() {
        auto n = expr(0);
        ws();
        if (p != s.size()) ok = false;
        return n;
    }
};
struct Undef {};
I ev(const Node &n, const std::map<std::string, I> &env) {
    if (n.op == "num") return n.v;
    if (n.op == "sym") return env.at(n.sym);
    I a = ev(n.k[0], env);
    if (n.op == "u!") return !a;
    if (n.op == "u~") return ~a;
    if (n.op == "u+") return a;
    if (n.op == "u-") return (I)(0 - (U)a);
    if (n.op == "&&" && !a) return 0;
    if (n.op == "||" && a) return 1;
    I b = ev(n.k[1], env);
    if (n.op == "&&" || n.op == "||") return b != 0;
    if (n.op == "+") return (I)((U)a + (U)b);
    if (n.op == "-") return (I)((U)a - (U)b);
    if (n.op == "*") return (I)((U)a * (U)b);
    if (n.op == "/" || n.op == "%") {
        if (b == 0) throw Undef{};  // value unspecified, must not fault
        if (b == -1) return n.op == "/" ? (I)(0 - (U)a) : 0;
        return n.op == "/" ? a / b : a % b;
    }
    if (n.op == "==") return a == b;
    if (n.op == "!=") return a != b;
    if (n.op == "<") return a < b;
    if (n.op == ">") return a > b;
    if (n.op == "<=") return a <= b;
    if (n.op == ">=") return a >= b;
    if (n.op == "&") return a & b;
    if (n.op == "|") return a | b;
    if (n.op == "^") return a ^ b;
    throw Undef{};
}

const std::vector<I> VALS = {0, 1, -1, 2, 5, INT64_MIN, INT64_MAX};

void check(const std::string &txt, const std::vector<I> &vals) {
    mc::note(txt);
    Ref r(txt);
    auto root = r.parse();
    hgdb::DebugExpression e(txt);
    mc::evaluation();
    if (e.correct() != r.ok)
        mc::fail("expression '" + txt + "' is " + (r.ok ? "valid" : "invalid") +
                 " but the debugger says it is " + (e.correct() ? "correct" : "incorrect"));
    if (!r.ok) return;
    std::set<std::string> got(e.symbols().begin(), e.symbols().end());
    if (got != r.syms) mc::fail("expression '" + txt + "': wrong set of symbols");
    auto req = e.get_required_symbols();
    if (std::set<std::string>(req.begin(), req.end()) != r.syms)
        mc::fail("expression '" + txt + "': wrong set of required symbols");
    std::vector<std::string> names(r.syms.begin(), r.syms.end());
    std::vector<size_t> idx(names.size(), 0);
    while (true) {
        std::map<std::string, I> env;
        std::unordered_map<std::string, int64_t> m;
        for (size_t i = 0; i < names.size(); i++) {
            // different symbols never have the same rotation of values
            env[names[i]] = vals[idx[i]];
            m[names[i]] = vals[idx[i]];
        }
        e.set_values(m);
        auto got_v = e.eval();
        mc::validated();
        try {
            auto want = ev(root, env);
            if (got_v != want) {
                std::string s;
                for (auto &p : env) s += " " + p.first + "=" + std::to_string(p.second);
                mc::fail("expression '" + txt + "' with" + s + " gives " + std::to_string(got_v) +
                         ", expected " + std::to_string(want));
            }
            mc::nontrivial(mc::hash(txt));
        } catch (Undef &) {
            mc::counter("division by zero evaluated", 1);
        }
        size_t k = 0;
        while (k < idx.size() && ++idx[k] == vals.size()) idx[k++] = 0;
        if (k == idx.size()) break;
    }
    // symbols with static values are not required any more and keep their value
    if (!names.empty()) {
        hgdb::DebugExpression f(txt);
        f.set_static_values({{names[0], 5}, {"not_there", 7}});
        auto rq = f.get_required_symbols();
        std::set<std::string> want = r.syms;
        want.erase(names[0]);
        if (std::set<std::string>(rq.begin(), rq.end()) != want)
            mc::fail("expression '" + txt + "': required symbols wrong with a static value");
        std::map<std::string, I> env;
        for (auto &n : names) env[n] = 2;
        env[names[0]] = 5;
        for (auto &n : rq) f.set_value(n, 2);
        auto g = f.eval();
        mc::validated();
        try {
            if (g != ev(root, env)) mc::fail("expression '" + txt + "': wrong value with a static value");
        } catch (Undef &) {
        }
    }
    mc::sample(txt);
}

const std::vector<std::string> TOK = {"a", "b", "3", "4'hA", "(", ")", "+", "-", "*", "/", "%", "==",
                                      "!=", "!", "~", "&&", "||", "&", "|", "^", "<", ">", "<=",
                                      ">=", "="};
const std::string CH = "a1'h[]:.$_ F";
const std::vector<std::string> BIN = {"+", "-", "*", "/", "%", "==", "!=", "&&", "||",
                                      "&", "|", "^", "<", ">", "<=", ">="};
const std::vector<std::string> UN = {"", "!", "~", "-", "+", "!!", "-~"};

void enum_tokens(std::string &cur, int left, const std::string &sep, bool first) {
    if (!first) check(cur, VALS);
    if (!left) return;
    for (auto &t : TOK) {
        auto n = cur.size();
        if (!first) cur += sep;
        cur += t;
        enum_tokens(cur, left - 1, sep, false);
        cur.resize(n);
    }
}
void enum_chars(std::string &cur, int left) {
    static const std::vector<I> few = {3, -7};
    check(cur, few);
    if (!left) return;
    for (char c : CH) {
        cur += c;
        enum_chars(cur, left - 1);
        cur.pop_back();
    }
}
void structured(size_t i) {
    // x op1 y op2 z op3 w with parentheses and unary operators
    size_t nb = BIN.size();
    auto &o1 = BIN[i / nb], &o2 = BIN[i % nb];
    static const std::vector<I> few = {0, 1, -3, 6};
    for (auto &u1 : UN)
        for (auto &u2 : UN)
            for (int par = 0; par < 5; par++)
                for (int spc = 0; spc < 2; spc++) {
                    std::string s = spc ? " " : "";
                    std::string x = u1 + "a", y = u2 + s + "b", z = "c";
                    std::string t;
                    auto j = [&](const std::string &l, const std::string &o, const std::string &r) {
                        // keep '&' '&' etc. apart is the parser's business: no spaces if spc == 0
                        return l + s + o + s + r;
                    };
                    switch (par) {
                        case 0:
                            t = j(j(x, o1, y), o2, z);
                            break;
                        case 1:
                            t = j("(" + s + j(x, o1, y) + ")", o2, z);
                            break;
                        case 2:
                            t = j(x, o1, "(" + j(y, o2, z) + s + ")");
                            break;
                        case 3:
                            t = u1 + "(" + j("a", o1, y) + ")" + s + o2 + s + u2 + z;
                            break;
                        case 4:
                            t = u2 + "((" + j(x, o1, "(" + y + ")") + s + o2 + s + "((" + z + "))))";
                            break;
                    }
                    check(t, few);
                }
    static const std::vector<I> two = {2, 5};
    for (auto &o3 : BIN) {
        check("a " + o1 + " b " + o2 + " c " + o3 + " d", few);
        check("a" + o1 + "b" + o2 + "c" + o3 + "d", two);
        check("a " + o1 + " (b " + o2 + " c) " + o3 + " d", two);
        check("a " + o1 + " b " + o2 + " (c " + o3 + " a)", few);
    }
}
const int NSPECIAL = 1;
}  // namespace

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C11";
    size_t nt = TOK.size(), nc = CH.size(), nb = BIN.size() * BIN.size();
    c.tops = [=] { return NSPECIAL + nb + nt * nt * 2 + nc * nc; };
    c.body = [=](size_t t) {
        mc::transition();
        mc::state(t + 1);
        if (t < NSPECIAL) {
            std::vector<std::string> sp = {"", " ", "9223372036854775807", "0", "007",
                "1'h7fffffffffffffff", "16'hABCDEF", "16'habcdef", "a\t+\nb", "$time", "$instance + 1",
                "a.b.c + a.b", "a[3:0] == a[3]", "a[10][2].x[1:0]", "\ta", "a \r", "a[ 0]", "a [0]",
                "a[0 ]", "a[0:]", "a[:0]", "a[x:0]", "a[0:1:2]", "a..b", ".a", "a.", "1.5", "1e3", "0x10",
                "a ? b : c", "a << 1", "a >> 1", "a = 1", "a == = 1", "a,b", "f(a)", "(((((a)))))",
                "((a)", "(a))", "()", "( )", "(a)(b)", "a b", "1 2", "a\"", "#", "@", "a & & b", "a | | b",
                "a ! = b", "a < = b", "a&-b", "a&&!b", "a<-1", "a<=-1", "a<~b", "- - a", "!~-+a", "a-!b"};
            for (auto &s : sp) check(s, VALS);
            // deep but bounded nesting and long chains
            std::string d, e2;
            for (int i = 0; i < 60; i++) d += "(";
            d += "a";
            for (int i = 0; i < 60; i++) d += ")";
            check(d, VALS);
            for (int i = 0; i < 60; i++) e2 += "a - b + ";
            check(e2 + "c", {0, 1, -3});
            return;
        }
        t -= NSPECIAL;
        if (t < nb) return structured(t);
        t -= nb;
        if (t < nt * nt * 2) {
            std::string sep = t % 2 ? " " : "";
            t /= 2;
            std::string cur = TOK[t / nt] + sep + TOK[t % nt];
            if (t % nt == 0) check(TOK[t / nt], VALS);
            enum_tokens(cur, mc::thorough() ? 3 : 2, sep, false);
            return;
        }
        t -= nt * nt * 2;
        std::string cur = {CH[t / nc], CH[t % nc]};
        enum_chars(cur, mc::thorough() ? 4 : 3);
    };
    return mc::main_(argc, argv, c);
}
