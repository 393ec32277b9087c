// C26: every token sequence of a bounded length in the declarations and in the value changes of a
// dump, every layout of white space, every truncation and single token or character change of whole
// files; what the reader reports is compared with an independent reading of the same text.
// build: asan +tools/vcd/vcd.cc
#include <climits>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "explore.hh"
#include "vcd.hh"
using namespace hgdb::vcd;
using V = std::vector<std::string>;

// ---- reference reading ----
enum class Verdict { Good, Bad, Either };
struct Ref {
    Verdict v = Verdict::Good;
    V events;  // what a good file says
    std::string why;
};
static bool white(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f'; }
static V split(const std::string &s) {
    V r;
    std::string cur;
    for (char c : s) {
        if (white(c)) {
            if (!cur.empty()) r.push_back(cur);
            cur.clear();
        } else
            cur += c;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
static bool digits(const std::string &s) {
    if (s.empty()) return false;
    for (char c : s)
        if (c < '0' || c > '9') return false;
    return true;
}
// decimal, no larger than max
static bool dec(const std::string &s, unsigned __int128 max, uint64_t &out) {
    if (!digits(s)) return false;
    unsigned __int128 v = 0;
    for (char c : s) {
        v = v * 10 + (c - '0');
        if (v > max) return false;
    }
    out = (uint64_t)v;
    return true;
}
static Ref read(const std::string &text) {
    Ref r;
    V t = split(text);
    size_t p = 0;
    V scopes;
    std::map<std::string, int> ids;
    auto bad = [&](const std::string &w) {
        r.v = Verdict::Bad;
        r.why = w;
        return r;
    };
    auto either = [&](const std::string &w) {
        if (r.v == Verdict::Good) r.v = Verdict::Either, r.why = w;
    };
    // a list of words up to $end
    auto words = [&](std::string &out) {
        while (p < t.size() && t[p] != "$end") out += " " + t[p++];
        return p++ < t.size();
    };
    bool header = true;
    while (header) {
        if (p >= t.size()) return bad("no $enddefinitions");
        std::string k = t[p++];
        if (k == "$date" || k == "$version" || k == "$timescale" || k == "$comment") {
            std::string w;
            if (!words(w)) return bad("no $end");
            r.events.push_back("meta " + k.substr(1) + w);
        } else if (k == "$scope") {
            if (p + 2 >= t.size() || t[p + 2] != "$end" || t[p + 1] == "$end") return bad("$scope");
            if (t[p] == "$end") either("type $end");
            scopes.push_back(t[p + 1]);
            r.events.push_back("scope " + t[p] + " " + t[p + 1]);
            p += 3;
        } else if (k == "$upscope") {
            if (p >= t.size() || t[p] != "$end") return bad("$upscope");
            if (scopes.empty()) return bad("$upscope without scope");
            scopes.pop_back();
            r.events.push_back("upscope");
            p++;
        } else if (k == "$var") {
            size_t e = p;
            // type width identifier name [slice]
            if (p + 4 >= t.size()) return bad("$var");
            uint64_t w;
            if (!dec(t[p + 1], UINT32_MAX, w)) return bad("width");
            e = p + 4;
            std::string slice;
            if (t[p + 3] == "$end") return bad("name");
            if (t[e] != "$end") slice = t[e++];
            if (e >= t.size() || t[e] != "$end") return bad("$var end");
            if (scopes.empty()) return bad("$var without scope");
            if (t[p] == "$end" || t[p + 2] == "$end") either("$end as a type or identifier");
            ids[t[p + 2]] = 1;
            r.events.push_back("var " + t[p] + " " + std::to_string(w) + " " + t[p + 2] + " " + t[p + 3] + " " + slice);
            p = e + 1;
        } else if (k == "$enddefinitions") {
            if (p >= t.size() || t[p] != "$end") return bad("$enddefinitions");
            p++;
            header = false;
        } else
            return bad("unknown " + k);
    }
    if (!scopes.empty()) either("open scopes");
    r.events.push_back("enddefinitions");
    uint64_t now = 0;
    bool dump = false;
    while (p < t.size()) {
        std::string k = t[p++];
        std::string first = k.substr(0, 1);
        if (first == "#") {
            uint64_t n;
            if (!dec(k.substr(1), UINT64_MAX, n)) return bad("time " + k);
            if (n < now) either("time goes back");
            now = n;
            r.events.push_back("time " + std::to_string(now));
        } else if (std::string("01xzXZ").find(first) != std::string::npos) {
            std::string id = k.substr(1);
            if (!ids.count(id)) return bad("identifier " + id);
            r.events.push_back("value " + std::to_string(now) + " " + id + " " + first + " scalar");
        } else if (std::string("bBrR").find(first) != std::string::npos) {
            if (p >= t.size() || !ids.count(t[p])) return bad("identifier of " + k);
            if (k.size() == 1) return bad("no value");
            if (first == "b" || first == "B")
                for (char c : k.substr(1))
                    if (std::string("01xzXZ").find(c) == std::string::npos) either("digits " + k);
            if ((first == "r" || first == "R") && k.find_first_not_of("0123456789.+-eE", 1) != std::string::npos) either("real " + k);
            r.events.push_back("value " + std::to_string(now) + " " + t[p] + " " + k.substr(1) + (first == "r" || first == "R" ? " real" : " vector"));
            p++;
        } else if (k == "$dumpvars" || k == "$dumpall" || k == "$dumpon" || k == "$dumpoff") {
            if (dump) return bad("nested dump");
            dump = true;
            r.events.push_back("dump " + k);
        } else if (k == "$end") {
            if (!dump) return bad("$end");
            dump = false;
        } else if (k == "$comment") {
            std::string w;
            if (!words(w)) return bad("no $end");
            r.events.push_back("meta comment" + w);
        } else
            return bad("unknown " + k);
    }
    if (dump) return bad("no $end of a dump");
    return r;
}
// ---- the reader ----
struct Got {
    bool ok, error;
    V events;
    std::string message;
};
static Got run(VCDParser &p) {
    Got g;
    auto &e = g.events;
    p.set_on_meta_info([&](const VCDMetaInfo &m) {
        static const char *n[] = {"date", "version", "timescale", "comment"};
        // words are separated by white space
        std::string w;
        for (auto &x : split(m.value)) w += " " + x;
        e.push_back(std::string("meta ") + n[(int)m.type] + w);
    });
    p.set_on_enter_scope([&](const VCDScopeDef &s) { e.push_back("scope " + s.type + " " + s.name); });
    p.set_exit_scope([&] { e.push_back("upscope"); });
    p.set_on_var_def([&](const VCDVarDef &v) { e.push_back("var " + v.type + " " + std::to_string(v.width) + " " + v.identifier + " " + v.name + " " + v.slice); });
    p.set_on_definition_finished([&] { e.push_back("enddefinitions"); });
    p.set_on_time_change([&](uint64_t t) { e.push_back("time " + std::to_string(t)); });
    p.set_on_dump_var_action([&](const std::string &a) { e.push_back("dump " + a); });
    p.set_value_change([&](const VCDValue &v) { e.push_back("value " + std::to_string(v.time) + " " + v.identifier + " " + v.value + (v.is_event ? " scalar" : v.is_real ? " real" : " vector")); });
    g.ok = p.parse();
    g.error = p.has_error();
    g.message = p.error_message();
    return g;
}
static std::string quote(const std::string &s) {
    std::string r;
    for (char c : s.substr(0, 600)) r += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : c == '\t' ? std::string("\\t") : std::string(1, c);
    return r;
}
static void compare(const std::string &text, Got g) {
    mc::evaluation();
    auto r = read(text);
    auto say = [&](const std::string &w) { mc::fail(w + " for: " + quote(text)); };
    if (r.v == Verdict::Bad && g.ok) say("malformed dump (" + r.why + ") is accepted");
    if (r.v == Verdict::Good && !g.ok) say("valid dump is rejected (" + g.message + ")");
    if (!g.ok && g.message.empty()) say("an error without a message");
    if (g.ok && g.error) say("success with an error");
    // what was reported before a mistake is what the file says up to there, and nothing else
    if (r.v == Verdict::Bad) {
        for (size_t i = 0; i < std::min(g.events.size(), r.events.size()); i++)
            if (g.events[i] != r.events[i]) say("report '" + g.events[i] + "' instead of '" + r.events[i] + "'");
        return;
    }
    if (!g.ok) return;
    for (size_t i = 0; i < std::max(g.events.size(), r.events.size()); i++) {
        auto a = i < g.events.size() ? g.events[i] : "nothing", b = i < r.events.size() ? r.events[i] : "nothing";
        if (a != b) say("report " + std::to_string(i) + " is '" + a + "' instead of '" + b + "'");
    }
    mc::state(mc::hash(text));
    if (r.events.size() > 3) {
        std::string all;
        for (auto &x : r.events) all += x + ";";
        mc::nontrivial(mc::hash(all));
    }
}
static void check(const std::string &text) {
    mc::checkpoint();
    mc::note("dump: " + quote(text));
    std::istringstream ss(text);
    VCDParser p(ss);
    compare(text, run(p));
}
static void check_file(const std::string &text) {
    mc::note("dump file: " + quote(text));
    auto fn = mc::scratch() + "/t.vcd";
    std::ofstream(fn, std::ios::binary) << text;
    VCDParser p(fn);
    compare(text, run(p));
}
static std::string join(const V &v, const std::string &sep, const std::string &end) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + v[i];
    return s + end;
}
static void layouts(const V &v) {
    for (auto *sep : {" ", "\n", "\r\n", "\t", "\f", " \n\n  "})
        for (auto *end : {"", "\n", " ", "\r\n", "\n\n\n"}) check(join(v, sep, end));
    check("\n \t" + join(v, " ", ""));
}

// ---- declarations ----
static const std::vector<V> &decls() {
    static const std::vector<V> d = {
        {"$scope", "module", "a", "$end"},
        {"$scope", "begin", "b", "$end"},
        {"$upscope", "$end"},
        {"$var", "wire", "1", "!", "x", "$end"},
        {"$var", "reg", "8", "\"", "y", "[7:0]", "$end"},
        {"$var", "reg", "2", "%", "r[9]", "[1:0]", "$end"},
        {"$var", "real", "64", "#", "q", "$end"},
        {"$var", "wire", "4294967295", "!", "alias", "$end"},
        {"$comment", "$scope", "module", "c", "$end"},
        {"$date", "today", "$end"},
        {"$timescale", "1", "ns", "$end"},
        {"$version", "$end"},
        // mistakes
        {"$var", "wire", "x", "!", "x", "$end"},
        {"$var", "wire", "-1", "!", "x", "$end"},
        {"$var", "wire", "4294967296", "!", "x", "$end"},
        {"$var", "wire", "99999999999999999999999", "!", "x", "$end"},
        {"$var", "wire", "8bit", "!", "x", "$end"},
        {"$var", "wire", "", "!", "x", "$end"},
        {"$var", "wire", "1", "!", "x", "[1:0]", "[2:0]", "$end"},
        {"$scope", "module", "$end"},
        {"$scope", "module", "a", "b", "$end"},
        {"$upscope"},
        {"$foo", "$end"},
        {"$end"},
    };
    return d;
}
static void header(size_t top) {
    int n = mc::thorough() ? 4 : 3;
    int N = (int)decls().size();
    V v = decls()[top];
    std::function<void(int)> go = [&](int left) {
        V f = v;
        f.insert(f.end(), {"$enddefinitions", "$end", "#0", "1!", "b101", "\"", "r1.5", "#"});
        check(join(f, " ", "\n"));
        f.resize(f.size() - 6);
        check(join(f, "\n", ""));
        if (!left) return;
        for (int i = 0; i < N; i++) {
            size_t s = v.size();
            v.insert(v.end(), decls()[i].begin(), decls()[i].end());
            go(left - 1);
            v.resize(s);
        }
    };
    go(n - 1);
    // within a module
    v = {"$scope", "module", "top", "$end"};
    v.insert(v.end(), decls()[top].begin(), decls()[top].end());
    go(n - 1);
}
// raw words of declarations
static const V &words() {
    static const V w = {"$scope", "$upscope", "$var", "$comment", "$enddefinitions", "$end", "1", "a", "!"};
    return w;
}
static void raw(size_t top) {
    int n = mc::thorough() ? 7 : 6;
    V v = {words()[top]};
    std::function<void(int)> go = [&](int left) {
        check(join(v, " ", "\n"));
        if (!left) return;
        for (auto &w : words()) {
            v.push_back(w);
            go(left - 1);
            v.pop_back();
        }
    };
    go(n - 1);
}
// ---- value changes ----
static const V &changes() {
    static const V w = {"#0",  "#5", "#10", "#4294967296", "#18446744073709551615", "#18446744073709551616", "#-1", "#", "#1x", "1!", "x!", "Z#1", "0", "1?", "z10", "b101", "bXz", "B0", "b", "r1.5", "R-2e3", "r", "!", "#1", "10", "$dumpvars", "$dumpoff", "$end", "$comment", "foo"};
    return w;
}
static const V &preamble() {
    static const V p = {"$scope", "module", "m", "$end", "$var", "wire", "1", "!", "x", "$end", "$var", "reg", "4", "#1", "y", "[3:0]", "$end", "$scope", "module", "n", "$end", "$var", "wire", "1", "10", "z", "$end", "$var", "wire", "1", "!", "x2", "$end", "$upscope", "$end", "$upscope", "$end", "$enddefinitions", "$end"};
    return p;
}
static void values(size_t top) {
    int n = mc::thorough() ? 5 : 4;
    V v = preamble();
    v.push_back(changes()[top]);
    std::function<void(int)> go = [&](int left) {
        check(join(v, " ", left % 2 ? "\n" : ""));
        if (!left) return;
        for (auto &w : changes()) {
            v.push_back(w);
            go(left - 1);
            v.pop_back();
        }
    };
    go(n - 1);
}
// valid dumps: all histories of two signals over several times, in every layout
static void histories(size_t top) {
    static const std::vector<V> items = {{"0!"}, {"1!"}, {"z!"}, {"b1010", "#1"}, {"bx", "#1"}, {"r0.25", "#1"}, {"#7"}, {"$comment", "1!", "$end"}, {"110"}, {"$dumpall", "1!", "b0", "#1", "$end"}};
    int N = (int)items.size();
    V v = preamble();
    v.insert(v.end(), {"#0", "$dumpvars", "x!", "bx", "#1", "$end"});
    v.insert(v.end(), items[top].begin(), items[top].end());
    uint64_t now = 0;
    std::function<void(int)> go = [&](int left) {
        if (!left) {
            layouts(v);
            return;
        }
        for (int i = 0; i < N; i++) {
            auto s = v.size();
            auto old = now;
            if (items[i][0] == "#7")
                v.push_back("#" + std::to_string(now += now + 7));
            else
                v.insert(v.end(), items[i].begin(), items[i].end());
            go(left - 1);
            now = old;
            v.resize(s);
        }
    };
    go(mc::thorough() ? 4 : 3);
}
// ---- whole files ----
static const V &files() {
    static V f = [] {
        V r;
        auto dir = std::filesystem::path(__FILE__).parent_path() / "vcd";
        std::error_code ec;
        V names;
        for (auto &e : std::filesystem::directory_iterator(dir, ec))
            if (e.path().extension() == ".vcd") names.push_back(e.path());
        std::sort(names.begin(), names.end());
        for (auto &n : names) {
            std::ifstream s(n, std::ios::binary);
            std::stringstream ss;
            ss << s.rdbuf();
            r.push_back(ss.str());
        }
        V v = preamble();
        v.insert(v.end(), {"#0", "$dumpvars", "x!", "bx", "#1", "r1.5", "10", "$end", "#10", "1!", "b11", "#1", "$comment", "hi", "$end"});
        r.push_back(join(v, "\n", "\n"));
        return r;
    }();
    return f;
}
static constexpr int Parts = 8;
static void whole(size_t top) {
    const auto &text = files()[top / Parts];
    size_t part = top % Parts;
    if (part == 0) check_file(text);
    // truncated anywhere
    for (size_t i = part; i < text.size(); i += Parts) check(text.substr(0, i));
    // one token removed, doubled, replaced or swapped with the next
    V t = split(text);
    static const V repl = {"$end", "$scope", "$enddefinitions", "0", "#", "b1", "!", "$var"};
    for (size_t i = part; i < t.size(); i += Parts) {
        V u = t;
        u.erase(u.begin() + (long)i);
        check(join(u, " ", "\n"));
        u = t;
        u.insert(u.begin() + (long)i, t[i]);
        check(join(u, " ", "\n"));
        if (i + 1 < t.size()) {
            u = t;
            std::swap(u[i], u[i + 1]);
            check(join(u, " ", "\n"));
        }
        for (auto &w : repl) {
            u = t;
            u[i] = w;
            check(join(u, "\n", ""));
        }
    }
    // one character replaced
    std::string cs = std::string(" $#b1x\0\xff-", 9);
    for (size_t i = part; i < text.size(); i += Parts)
        for (char c : cs) {
            if (!mc::thorough() && c != ' ' && c != '$' && c != '\0' && c != '#') continue;
            auto u = text;
            u[i] = c;
            check(u);
        }
}
static void special(size_t) {
    for (auto *s : {"", " ", "\n", "$", "$end", "#0", "1!"}) check(s), check_file(s);
    // a file that is not there
    VCDParser p(mc::scratch() + "/nothing.vcd");
    auto g = run(p);
    if (g.ok || !g.events.empty() || g.message.empty() || !g.error) mc::fail("a missing file is read");
    // deep scopes, many variables and long words
    V v;
    for (int i = 0; i < 2000; i++) v.insert(v.end(), {"$scope", "module", "m" + std::to_string(i), "$end"});
    for (int i = 0; i < 2000; i++) v.insert(v.end(), {"$var", "wire", "1", "i" + std::to_string(i), "v" + std::to_string(i), "$end"});
    for (int i = 0; i < 2000; i++) v.insert(v.end(), {"$upscope", "$end"});
    v.insert(v.end(), {"$enddefinitions", "$end"});
    for (int i = 0; i < 2000; i++) v.insert(v.end(), {"#" + std::to_string(i * 1000000000ull), "1i" + std::to_string(i), "b" + std::string((size_t)i + 1, '1'), "i0"});
    check(join(v, "\n", "\n"));
    // each variable width
    for (uint64_t w = 0; w < 4096; w++) {
        V d = {"$scope", "module", "m", "$end", "$var", "wire", std::to_string(w), "!", "x", "$end", "$enddefinitions", "$end"};
        check(join(d, " ", "\n"));
    }
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C26";
    size_t n1 = decls().size(), n2 = words().size(), n3 = changes().size(), n4 = 10, n5 = files().size() * Parts;
    c.tops = [=] { return n1 + n2 + n3 + n4 + n5 + 1; };
    c.body = [=](size_t t) {
        if (t < n1) return header(t);
        t -= n1;
        if (t < n2) return raw(t);
        t -= n2;
        if (t < n3) return values(t);
        t -= n3;
        if (t < n4) return histories(t);
        t -= n4;
        if (t < n5) return whole(t);
        special(t);
    };
    return mc::main_(argc, argv, c);
}
