// small JSON value, independent of the library hgdb uses
#pragma once
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace mj {
struct J {
    enum T { Null, Bool, Num, Str, Arr, Obj, Raw } t = Null;
    bool b = false;
    std::string s;  // string or number text
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() = default;
    J(const char *v) : t(Str), s(v) {}
    J(const std::string &v) : t(Str), s(v) {}
    J(bool v) : t(Bool), b(v) {}
    J(int v) : t(Num), s(std::to_string(v)) {}
    J(unsigned v) : t(Num), s(std::to_string(v)) {}
    J(int64_t v) : t(Num), s(std::to_string(v)) {}
    J(double v) : t(Num), s(std::to_string(v)) {}
    J(uint64_t v) : t(Num), s(std::to_string(v)) {}
    static J raw(const std::string &v) {
        J j;
        j.t = Raw;
        j.s = v;
        return j;
    }
    static J arr() {
        J j;
        j.t = Arr;
        return j;
    }
    static J obj() {
        J j;
        j.t = Obj;
        return j;
    }
    static J arr(std::initializer_list<J> l) {
        J j;
        j.t = Arr;
        j.a = l;
        return j;
    }
    static J obj(std::initializer_list<std::pair<std::string, J>> l) {
        J j;
        j.t = Obj;
        for (auto &p : l) j.o.emplace_back(p.first, p.second);
        return j;
    }
    const J *find(const std::string &k) const {
        if (t != Obj) return nullptr;
        for (auto &p : o)
            if (p.first == k) return &p.second;
        return nullptr;
    }
    J *find(const std::string &k) { return const_cast<J *>(((const J *)this)->find(k)); }
    bool has(const std::string &k) const { return find(k) != nullptr; }
    const J &operator[](const std::string &k) const {
        static const J null;
        auto *p = find(k);
        return p ? *p : null;
    }
    J &set(const std::string &k, const J &v) {
        t = Obj;
        for (auto &p : o)
            if (p.first == k) {
                p.second = v;
                return *this;
            }
        o.emplace_back(k, v);
        return *this;
    }
    J &erase(const std::string &k) {
        for (size_t i = 0; i < o.size(); i++)
            if (o[i].first == k) {
                o.erase(o.begin() + i);
                break;
            }
        return *this;
    }
    J &push(const J &v) {
        t = Arr;
        a.push_back(v);
        return *this;
    }
    bool is_str() const { return t == Str; }
    bool is_num() const { return t == Num; }
    int64_t i() const { return t == Num ? strtoll(s.c_str(), nullptr, 10) : 0; }
    uint64_t u() const { return t == Num ? strtoull(s.c_str(), nullptr, 10) : 0; }
    const std::string &str() const { return s; }

    static void esc(const std::string &v, std::string &out) {
        out += '"';
        for (unsigned char c : v) {
            switch (c) {
                case '"':
                    out += "\\\"";
                    break;
                case '\\':
                    out += "\\\\";
                    break;
                case '\n':
                    out += "\\n";
                    break;
                case '\t':
                    out += "\\t";
                    break;
                case '\r':
                    out += "\\r";
                    break;
                default:
                    if (c < 0x20) {
                        char buf[8];
                        snprintf(buf, sizeof buf, "\\u%04x", c);
                        out += buf;
                    } else
                        out += (char)c;
            }
        }
        out += '"';
    }
    void dump(std::string &out, bool sorted) const {
        switch (t) {
            case Null:
                out += "null";
                break;
            case Bool:
                out += b ? "true" : "false";
                break;
            case Num:
            case Raw:
                out += s;
                break;
            case Str:
                esc(s, out);
                break;
            case Arr: {
                out += '[';
                bool f = true;
                for (auto &v : a) {
                    if (!f) out += ',';
                    f = false;
                    v.dump(out, sorted);
                }
                out += ']';
                break;
            }
            case Obj: {
                out += '{';
                bool f = true;
                if (sorted) {
                    std::multimap<std::string, const J *> m;
                    for (auto &p : o) m.emplace(p.first, &p.second);
                    for (auto &p : m) {
                        if (!f) out += ',';
                        f = false;
                        esc(p.first, out);
                        out += ':';
                        p.second->dump(out, sorted);
                    }
                } else {
                    for (auto &p : o) {
                        if (!f) out += ',';
                        f = false;
                        esc(p.first, out);
                        out += ':';
                        p.second.dump(out, sorted);
                    }
                }
                out += '}';
                break;
            }
        }
    }
    std::string dump(bool sorted = false) const {
        std::string r;
        dump(r, sorted);
        return r;
    }
    bool operator==(const J &r) const { return dump(true) == r.dump(true); }
    bool operator!=(const J &r) const { return !(*this == r); }
};

struct Parser {
    const std::string &s;
    size_t p = 0;
    bool ok = true;
    explicit Parser(const std::string &s) : s(s) {}
    void ws() {
        while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++;
    }
    bool lit(const char *l) {
        std::string v = l;
        if (s.compare(p, v.size(), v) == 0) {
            p += v.size();
            return true;
        }
        return ok = false;
    }
    static void utf8(unsigned c, std::string &o) {
        if (c < 0x80)
            o += (char)c;
        else if (c < 0x800) {
            o += (char)(0xc0 | c >> 6);
            o += (char)(0x80 | (c & 63));
        } else {
            o += (char)(0xe0 | c >> 12);
            o += (char)(0x80 | (c >> 6 & 63));
            o += (char)(0x80 | (c & 63));
        }
    }
    std::string str() {
        std::string r;
        if (p >= s.size() || s[p] != '"') {
            ok = false;
            return r;
        }
        p++;
        while (p < s.size() && s[p] != '"') {
            if ((unsigned char)s[p] < 0x20) {
                ok = false;
                return r;
            }
            if (s[p] == '\\') {
                p++;
                if (p >= s.size()) break;
                switch (s[p]) {
                    case 'n':
                        r += '\n';
                        break;
                    case 't':
                        r += '\t';
                        break;
                    case 'r':
                        r += '\r';
                        break;
                    case 'b':
                        r += '\b';
                        break;
                    case 'f':
                        r += '\f';
                        break;
                    case 'u':
                        if (p + 4 < s.size()) {
                            utf8((unsigned)strtoul(s.substr(p + 1, 4).c_str(), nullptr, 16), r);
                            p += 4;
                        } else
                            ok = false;
                        break;
                    case '"':
                    case '\\':
                    case '/':
                        r += s[p];
                        break;
                    default:
                        ok = false;
                }
                p++;
            } else
                r += s[p++];
        }
        if (p >= s.size())
            ok = false;
        else
            p++;
        return r;
    }
    J val(int d = 0) {
        J j;
        ws();
        if (p >= s.size() || d > 200) {
            ok = false;
            return j;
        }
        char c = s[p];
        if (c == '{') {
            j.t = J::Obj;
            p++;
            ws();
            if (p < s.size() && s[p] == '}') {
                p++;
                return j;
            }
            while (ok) {
                ws();
                auto k = str();
                ws();
                if (p >= s.size() || s[p] != ':') {
                    ok = false;
                    break;
                }
                p++;
                auto v = val(d + 1);
                j.o.emplace_back(k, v);
                ws();
                if (p < s.size() && s[p] == ',') {
                    p++;
                    continue;
                }
                if (p < s.size() && s[p] == '}') {
                    p++;
                    break;
                }
                ok = false;
            }
        } else if (c == '[') {
            j.t = J::Arr;
            p++;
            ws();
            if (p < s.size() && s[p] == ']') {
                p++;
                return j;
            }
            while (ok) {
                j.a.push_back(val(d + 1));
                ws();
                if (p < s.size() && s[p] == ',') {
                    p++;
                    continue;
                }
                if (p < s.size() && s[p] == ']') {
                    p++;
                    break;
                }
                ok = false;
            }
        } else if (c == '"') {
            j.t = J::Str;
            j.s = str();
        } else if (c == 't') {
            lit("true");
            j = J(true);
        } else if (c == 'f') {
            lit("false");
            j = J(false);
        } else if (c == 'n') {
            lit("null");
        } else if (c == '-' || isdigit((unsigned char)c)) {
            size_t b = p;
            if (s[p] == '-') p++;
            if (p >= s.size() || !isdigit((unsigned char)s[p])) ok = false;
            while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.' || s[p] == 'e' ||
                                    s[p] == 'E' || s[p] == '+' || s[p] == '-'))
                p++;
            j.t = J::Num;
            j.s = s.substr(b, p - b);
        } else
            ok = false;
        return j;
    }
};
inline bool parse(const std::string &s, J &out) {
    Parser p(s);
    out = p.val();
    p.ws();
    return p.ok && p.p == s.size();
}
}  // namespace mj
