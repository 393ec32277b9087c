// C27: every combination of field values (present, missing, null, wrong type, out of range) of every
// request; every string over an alphabet of difficult characters in every text field of every
// message; every response; decoded and compared field by field.
// build: asan
#include <cmath>

#include "explore.hh"
#include "mj.hh"
#include "proto.hh"
#include "scheduler.hh"
using namespace hgdb;
using mj::J;
using Fields = std::map<std::string, std::string>;

static std::string show(const Fields &f) {
    std::string s;
    for (auto &p : f) s += p.first + "='" + p.second + "' ";
    return s;
}
// ---- requests: the documented format ----
enum Kind { U32, U64, I64, Str, Map, Enum };
struct Spec {
    const char *name;
    Kind kind;
    bool required;
    std::vector<std::string> choices;  // for enums
};
struct Req {
    const char *type;
    RequestType rt;
    std::vector<Spec> fields;
};
static const std::vector<Req> &reqs() {
    static const std::vector<Req> r = {
        {"breakpoint", RequestType::breakpoint, {{"action", Enum, true, {"add", "remove"}}, {"filename", Str, true, {}}, {"line_num", U32, true, {}}, {"column_num", U32, false, {}}, {"condition", Str, false, {}}}},
        {"breakpoint-id", RequestType::breakpoint_id, {{"action", Enum, true, {"add", "remove"}}, {"id", U32, true, {}}, {"condition", Str, false, {}}}},
        {"connection", RequestType::connection, {{"db_filename", Str, true, {}}, {"path-mapping", Map, false, {}}}},
        {"bp-location", RequestType::bp_location, {{"filename", Str, true, {}}, {"line_num", U32, false, {}}, {"column_num", U32, false, {}}}},
        {"command", RequestType::command, {{"command", Enum, true, {"continue", "step_over", "stop", "step_back", "reverse_continue", "jump"}}, {"time", U64, true, {}}}},
        {"debugger-info", RequestType::debugger_info, {{"command", Enum, true, {"breakpoints", "status", "options", "design", "filename"}}}},
        {"path-mapping", RequestType::path_mapping, {{"path-mapping", Map, true, {}}}},
        {"evaluation", RequestType::evaluation, {{"expression", Str, true, {}}, {"breakpoint_id", U32, false, {}}, {"instance_id", U32, false, {}}, {"namespace_id", U64, false, {}}}},
        {"monitor", RequestType::monitor, {{"action_type", Enum, true, {"add", "remove"}}, {"monitor_type", Enum, true, {"breakpoint", "clock_edge", "changed"}}, {"var_name", Str, true, {}}, {"instance_id", U32, false, {}}, {"breakpoint_id", U32, false, {}}, {"namespace_id", U64, false, {}}, {"track_id", U64, true, {}}}},
        {"set-value", RequestType::set_value, {{"var_name", Str, true, {}}, {"value", I64, true, {}}, {"instance_id", U32, false, {}}, {"breakpoint_id", U32, false, {}}, {"namespace_id", U64, false, {}}}},
        {"data-breakpoint", RequestType::data_breakpoint, {{"action", Enum, true, {"add", "info", "remove", "clear"}}, {"var_name", Str, true, {}}, {"breakpoint-id", U32, true, {}}, {"condition", Str, false, {}}, {"namespace_id", U64, false, {}}}},
    };
    return r;
}
// is a field looked at, given the values of the enums before it
static bool used(const Req &r, const Fields &f, const std::string &n) {
    std::string t = r.type;
    auto is = [&](const char *k, const char *v) { return f.count(k) && f.at(k) == v; };
    if (t == "command") return n != "time" || is("command", "jump");
    if (t == "monitor") {
        if (is("action_type", "remove")) return n == "action_type" || n == "track_id" || n == "namespace_id";
        return n != "track_id";
    }
    if (t == "data-breakpoint") {
        if (is("action", "clear")) return n == "action" || n == "namespace_id";
        if (is("action", "remove")) return n == "action" || n == "namespace_id" || n == "breakpoint-id";
    }
    return true;
}
static bool required(const Req &r, const Fields &f, const Spec &s) {
    if (std::string(r.type) == "breakpoint" && std::string(s.name) == "line_num" && f.count("action") && f.at("action") == "remove") return false;
    return s.required;
}
static std::string map_str(const std::map<std::string, std::string> &m) {
    std::string s;
    for (auto &p : m) s += p.first + "->" + p.second + ";";
    return s;
}
template <class T>
static void opt(Fields &f, const char *n, const T &v) {
    if (v) f[n] = std::to_string(*v);
}
// what hgdb decoded
static Fields decoded(const Request &q) {
    Fields f;
    if (auto *r = dynamic_cast<const BreakPointIDRequest *>(&q)) {
        f["action"] = r->bp_action() == BreakPointRequest::action::add ? "add" : "remove";
        f["id"] = std::to_string(r->breakpoint().id);
        f["condition"] = r->breakpoint().condition;
    } else if (auto *r = dynamic_cast<const BreakPointRequest *>(&q)) {
        f["action"] = r->bp_action() == BreakPointRequest::action::add ? "add" : "remove";
        f["filename"] = r->breakpoint().filename;
        f["line_num"] = std::to_string(r->breakpoint().line_num);
        f["column_num"] = std::to_string(r->breakpoint().column_num);
        f["condition"] = r->breakpoint().condition;
    } else if (auto *r = dynamic_cast<const ConnectionRequest *>(&q)) {
        f["db_filename"] = r->db_filename();
        f["path-mapping"] = map_str(r->path_mapping());
    } else if (auto *r = dynamic_cast<const BreakPointLocationRequest *>(&q)) {
        f["filename"] = r->filename();
        opt(f, "line_num", r->line_num());
        opt(f, "column_num", r->column_num());
    } else if (auto *r = dynamic_cast<const CommandRequest *>(&q)) {
        using C = CommandRequest::CommandType;
        static const std::map<C, const char *> n = {{C::continue_, "continue"}, {C::step_over, "step_over"}, {C::stop, "stop"}, {C::step_back, "step_back"}, {C::reverse_continue, "reverse_continue"}, {C::jump, "jump"}};
        f["command"] = n.at(r->command_type());
        f["time"] = std::to_string(r->time());
    } else if (auto *r = dynamic_cast<const DebuggerInformationRequest *>(&q)) {
        using C = DebuggerInformationRequest::CommandType;
        static const std::map<C, const char *> n = {{C::breakpoints, "breakpoints"}, {C::status, "status"}, {C::options, "options"}, {C::design, "design"}, {C::filename, "filename"}};
        f["command"] = n.at(r->command_type());
    } else if (auto *r = dynamic_cast<const PathMappingRequest *>(&q)) {
        f["path-mapping"] = map_str(r->path_mapping());
    } else if (auto *r = dynamic_cast<const EvaluationRequest *>(&q)) {
        f["expression"] = r->expression();
        opt(f, "breakpoint_id", r->breakpoint_id());
        opt(f, "instance_id", r->instance_id());
        opt(f, "namespace_id", r->namespace_id());
    } else if (auto *r = dynamic_cast<const MonitorRequest *>(&q)) {
        using M = MonitorRequest::MonitorType;
        static const std::map<M, const char *> n = {{M::breakpoint, "breakpoint"}, {M::clock_edge, "clock_edge"}, {M::changed, "changed"}, {M::data, "data"}, {M::delay_clock_edge, "delay"}};
        f["action_type"] = r->action_type() == MonitorRequest::ActionType::add ? "add" : "remove";
        f["monitor_type"] = n.at(r->monitor_type());
        f["var_name"] = r->var_name();
        opt(f, "instance_id", r->instance_id());
        opt(f, "breakpoint_id", r->breakpoint_id());
        opt(f, "namespace_id", r->namespace_id());
        f["track_id"] = std::to_string(r->track_id());
    } else if (auto *r = dynamic_cast<const SetValueRequest *>(&q)) {
        f["var_name"] = r->var_name();
        f["value"] = std::to_string(r->value());
        opt(f, "instance_id", r->instance_id());
        opt(f, "breakpoint_id", r->breakpoint_id());
        opt(f, "namespace_id", r->namespace_id());
    } else if (auto *r = dynamic_cast<const DataBreakpointRequest *>(&q)) {
        using A = DataBreakpointRequest::Action;
        static const std::map<A, const char *> n = {{A::add, "add"}, {A::info, "info"}, {A::remove, "remove"}, {A::clear, "clear"}};
        f["action"] = n.at(r->action());
        f["var_name"] = r->var_name();
        f["breakpoint-id"] = std::to_string(r->breakpoint_id());
        f["condition"] = r->condition();
        opt(f, "namespace_id", r->namespace_id());
    }
    return f;
}
static bool in_range(Kind k, const std::string &s) {
    auto neg = s[0] == '-';
    std::string d = neg ? s.substr(1) : s;
    auto le = [](const std::string &a, const std::string &b) { return a.size() != b.size() ? a.size() < b.size() : a <= b; };
    if (k == U32) return !neg && le(d, "4294967295");
    if (k == U64) return !neg && le(d, "18446744073709551615");
    return neg ? le(d, "9223372036854775808") : le(d, "9223372036854775807");
}
struct Val {
    J j;
    std::optional<std::string> canon;  // if it is a value of the kind
    bool absent = false;
};
static std::vector<Val> domain(const Spec &s, bool small) {
    std::vector<Val> r;
    Val a;
    a.absent = true;
    r.push_back(a);
    r.push_back({J(), {}, false});
    auto add = [&](const J &j, std::optional<std::string> c) { r.push_back({j, std::move(c), false}); };
    if (s.kind == Enum) {
        for (auto &c : s.choices) add(J(c), c);
        add(J("Add"), {});
        add(J(""), {});
        add(J(1), {});
        if (!small) add(J::arr({J(s.choices[0])}), {});
    } else if (s.kind == Str) {
        for (auto *v : {"a", "", "x y\\\"\n/\xc3\xa9"}) add(J(v), std::string(v));
        add(J(7), {});
        if (!small) {
            add(J::arr(), {});
            add(J::obj(), {});
            add(J(true), {});
        }
    } else if (s.kind == Map) {
        add(J::obj(), std::string());
        add(J::obj({{"/a", "/b"}}), std::string("/a->/b;"));
        add(J::obj({{"b", ""}, {"", "a\""}}), std::string("->a\";b->;"));
        add(J::obj({{"a", 1}}), {});
        add(J::obj({{"a", "b"}, {"c", J()}}), {});
        add(J::arr(), {});
        add(J("x"), {});
    } else {
        for (auto *n : {"0", "1", "4294967295", "4294967296", "-1", "18446744073709551615"}) add(J::raw(n), in_range(s.kind, n) ? std::optional<std::string>(n) : std::nullopt);
        if (!small || s.kind == I64)
            for (auto *n : {"-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775809"})
                add(J::raw(n), in_range(s.kind, n) ? std::optional<std::string>(n) : std::nullopt);
        add(J("1"), {});
        add(J::raw("1.5"), {});
        if (!small) {
            add(J(true), {});
            add(J::arr({J(1)}), {});
        }
    }
    return r;
}
static void one_request(const Req &r, const std::vector<Val> &v, const J &token, bool reversed, uint64_t &n) {
    J p = J::obj();
    for (size_t i = 0; i < r.fields.size(); i++)
        if (!v[i].absent) p.o.emplace_back(r.fields[i].name, v[i].j);
    if (reversed) std::reverse(p.o.begin(), p.o.end());
    J m = J::obj({{"request", true}, {"type", r.type}, {"payload", p}});
    if (token.t == J::Str) m.set("token", token);
    if (reversed) std::reverse(m.o.begin(), m.o.end());
    auto text = m.dump();
    n++;
    // what it means
    Fields want;
    bool ok = true, undecided = false;
    for (size_t i = 0; i < r.fields.size(); i++)
        if (r.fields[i].kind == Enum && v[i].canon) want[r.fields[i].name] = *v[i].canon;
    for (size_t i = 0; i < r.fields.size(); i++) {
        auto &s = r.fields[i];
        bool there = !v[i].absent && v[i].j.t != J::Null;
        bool u = used(r, want, s.name);
        if (!u) {
            // nobody asked for it
            want.erase(s.name);
            if (there && !v[i].canon) undecided = true;
            continue;
        }
        if (!there) {
            if (required(r, want, s)) ok = false;
            continue;
        }
        if (!v[i].canon) {
            ok = false;
            continue;
        }
        want[s.name] = *v[i].canon;
    }
    auto q = Request::parse_request(text);
    if (!q) mc::fail("no request for " + text);
    if (q->type() != r.rt) mc::fail("decoded as another type: " + text);
    if (q->get_token() != (token.t == J::Str ? token.s : "")) mc::fail("token lost: " + text);
    if (undecided && ok) return;
    bool got = q->status() == status_code::success;
    if (ok != got) mc::fail(std::string(ok ? "well-formed request rejected (" + q->error_reason() + "): " : "malformed request accepted: ") + text);
    if (!ok) {
        if (q->error_reason().empty()) mc::fail("rejected without a reason: " + text);
        return;
    }
    if (!q->error_reason().empty()) mc::fail("accepted with an error: " + text);
    auto have = decoded(*q);
    for (auto &s : r.fields) {
        if (!used(r, want, s.name)) continue;
        auto w = want.count(s.name) ? want[s.name] : std::string("-");
        auto h = have.count(s.name) ? have[s.name] : std::string("-");
        // the documented default of what is missing
        if (w == "-" && (h == "0" || h.empty()) && (std::string(r.type) == "breakpoint" || std::string(r.type) == "breakpoint-id" || std::string(r.type) == "data-breakpoint" || s.kind == Map)) continue;
        if (w != h) mc::fail(std::string("field ") + s.name + " decoded as '" + h + "' instead of '" + w + "': " + text);
    }
    mc::validated();
}
static void requests(size_t top) {
    auto &r = reqs()[top % reqs().size()];
    size_t part = top / reqs().size();
    // domains; the first field is split over the parts
    std::vector<std::vector<Val>> d;
    uint64_t total = 1;
    for (auto &s : r.fields) d.push_back(domain(s, r.fields.size() > 4 && !mc::thorough()));
    if (r.fields.size() > 6)
        for (size_t i = 2; i < d.size(); i++)
            if (d[i].size() > 6) {
                std::vector<Val> x = {d[i][0], d[i][1], d[i][2], d[i][3], d[i].back(), d[i][d[i].size() - 2]};
                if (mc::thorough()) x.push_back(d[i][4]);
                if (mc::thorough() && d[i].size() > 8) x.push_back(d[i][5]);
                d[i] = x;
            }
    for (auto &x : d) total *= x.size();
    static const std::vector<J> tokens = {J(), J(""), J("t"), J("\"\\\n\xe2\x82\xac{}")};
    uint64_t n = 0;
    std::vector<Val> v(d.size());
    for (uint64_t i = part; i < total; i += 32) {
        auto k = i;
        for (size_t f = 0; f < d.size(); f++) {
            v[f] = d[f][k % d[f].size()];
            k /= d[f].size();
        }
        one_request(r, v, tokens[i % 4], (i / 3) % 2, n);
    }
    mc::evaluation(n);
    mc::transition(n);
    mc::counter("requests", n);
    mc::state(mc::hash(std::string(r.type) + std::to_string(part)));
    mc::nontrivial(mc::hash(std::string(r.type) + std::to_string(part)));
    mc::sample(std::string(r.type) + ": " + std::to_string(total) + " combinations");
}
// ---- option-change, envelopes ----
static void envelope(size_t) {
    struct C {
        J j;
        int kind;  // 0 bool 1 int 2 str 3 bad
    };
    std::vector<C> vals = {{J(true), 0}, {J(false), 0}, {J(0), 1}, {J::raw("-9223372036854775808"), 1}, {J::raw("9223372036854775807"), 1}, {J(""), 2}, {J("x\"\n"), 2}, {J(), 3}, {J::arr(), 3}, {J::obj(), 3}, {J::raw("1.5"), 3}, {J::raw("18446744073709551615"), 3}};
    std::vector<const char *> names = {"use_hex_str", "", "a\"b\\"};
    for (size_t a = 0; a < vals.size(); a++)
        for (size_t b = 0; b <= vals.size(); b++)
            for (auto *n1 : names)
                for (auto *n2 : {"log_enabled", "z z"}) {
                    J p = J::obj({{n1, vals[a].j}});
                    if (b < vals.size()) p.set(n2, vals[b].j);
                    auto text = J::obj({{"request", true}, {"type", "option-change"}, {"payload", p}, {"token", "q"}}).dump();
                    auto q = Request::parse_request(text);
                    mc::evaluation();
                    auto *o = dynamic_cast<OptionChangeRequest *>(q.get());
                    if (!o || o->get_token() != "q") mc::fail("option request not decoded: " + text);
                    bool ok = vals[a].kind != 3 && (b == vals.size() || vals[b].kind != 3);
                    if (ok != (o->status() == status_code::success)) mc::fail("option request " + std::string(ok ? "rejected: " : "accepted: ") + text);
                    if (!ok) continue;
                    auto chk = [&](const char *n, const C &c) {
                        bool good = c.kind == 0 ? o->bool_values().count(n) && o->bool_values().at(n) == c.j.b
                                    : c.kind == 1 ? o->int_values().count(n) && o->int_values().at(n) == strtoll(c.j.s.c_str(), nullptr, 10)
                                                  : o->str_values().count(n) && o->str_values().at(n) == c.j.s;
                        if (!good) mc::fail(std::string("option ") + n + " is decoded wrongly: " + text);
                    };
                    chk(n1, vals[a]);
                    if (b < vals.size()) chk(n2, vals[b]);
                    if (o->bool_values().size() + o->int_values().size() + o->str_values().size() != p.o.size()) mc::fail("options invented: " + text);
                }
    // the envelope
    struct E {
        J req, type, payload, token;
    };
    std::vector<J> rq = {J(true), J(false), J(), J("true"), J(1), J::raw("-")}, ty = {J("command"), J("nope"), J(""), J("symbol"), J(), J(3), J("error"), J("generic"), J::raw("-")},
                   pl = {J::obj({{"command", "continue"}}), J(), J::arr(), J("x"), J(1), J::obj(), J::raw("-")}, tk = {J::raw("-"), J("tok"), J(5), J()};
    for (auto &r : rq)
        for (auto &t : ty)
            for (auto &p : pl)
                for (auto &k : tk)
                    for (int extra = 0; extra < 2; extra++) {
                        J m = J::obj();
                        if (extra) m.set("x", J::arr({J()}));
                        if (r.t != J::Raw) m.set("request", r);
                        if (k.t != J::Raw) m.set("token", k);
                        if (t.t != J::Raw) m.set("type", t);
                        if (p.t != J::Raw) m.set("payload", p);
                        auto text = m.dump();
                        auto q = Request::parse_request(text);
                        mc::evaluation();
                        bool ok = r.t == J::Bool && r.b && t.t == J::Str && t.s == "command" && p.t == J::Obj && p.has("command");
                        if (!q) mc::fail("no request for " + text);
                        bool got = q->status() == status_code::success;
                        if (got && !ok) mc::fail("malformed request accepted: " + text);
                        if (!got && ok && k.t != J::Num) mc::fail("well-formed request rejected: " + text);
                        if (k.t == J::Str && q->get_token() != k.s) mc::fail("token lost: " + text);
                        if (k.t != J::Str && !q->get_token().empty()) mc::fail("token invented: " + text);
                    }
    // cut off anywhere
    auto full = J::obj({{"request", true}, {"type", "set-value"}, {"payload", J::obj({{"var_name", "a\\\"b"}, {"value", -12}})}, {"token", "t"}}).dump();
    for (size_t i = 0; i < full.size(); i++) {
        if (Request::parse_request(full.substr(0, i))->status() == status_code::success) mc::fail("cut off request accepted: " + full.substr(0, i));
        if (i && Request::parse_request(full.substr(i))->status() == status_code::success) mc::fail("cut off request accepted: " + full.substr(i));
    }
    for (auto *s : {" ", "x", ",", "}", "]", "{}"})
        if ((Request::parse_request(full + s)->status() == status_code::success) != (std::string(s) == " ")) mc::fail("text after a request: " + full + s);
    for (int d : {10, 200, 5000, 200000}) {
        std::string open(d, '['), close(d, ']');
        for (auto &t : {open, open + close, "{\"request\":true,\"type\":\"command\",\"payload\":" + open + close + "}"})
            if (Request::parse_request(t)->status() == status_code::success) mc::fail("nonsense accepted");
    }
    mc::nontrivial(77);
}
// ---- text ----
static const std::vector<std::string> &alphabet() {
    static const std::vector<std::string> a = {"a", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", " ", "'", "<", ">", "&", "{", "}", "[", "]", ",", ":", "0", ".", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "u", "n", "%", "$"};
    return a;
}
// alternative spelling of a string in JSON: escapes for everything
static std::string escaped(const std::string &s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char)s[i];
        unsigned cp = c;
        size_t n = 1;
        if (c >= 0xf0) {
            cp = c & 7;
            n = 4;
        } else if (c >= 0xe0) {
            cp = c & 15;
            n = 3;
        } else if (c >= 0xc0) {
            cp = c & 31;
            n = 2;
        }
        for (size_t k = 1; k < n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
        i += n;
        char b[16];
        if (cp >= 0x10000) {
            cp -= 0x10000;
            snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 + (cp >> 10), 0xdc00 + (cp & 0x3ff));
        } else
            snprintf(b, sizeof b, "\\u%04x", cp);
        r += b;
    }
    return r + "\"";
}
static std::string strip(const std::string &s) {
    std::string r;
    bool str = false;
    for (size_t i = 0; i < s.size(); i++) {
        if (str) {
            r += s[i];
            if (s[i] == '\\')
                r += s[++i];
            else if (s[i] == '"')
                str = false;
        } else if (s[i] == '"') {
            str = true;
            r += s[i];
        } else if (s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r')
            r += s[i];
    }
    return r;
}
// JSON text from hgdb, decoded by us (the escapes \u of rapidjson are below 0x20 only)
static J plain(const Response &r, const std::string &what) {
    auto c = r.str(false), p = r.str(true);
    J j, k;
    if (!mj::parse(c, j)) mc::fail(what + " encodes as invalid JSON: " + c);
    if (!mj::parse(p, k)) mc::fail(what + " encodes as invalid JSON: " + p);
    if (strip(p) != strip(c)) mc::fail(what + ": pretty printing changes more than white space: " + p);
    mc::evaluation();
    return j;
}
static void expect(const J &got, const J &want, const std::string &what) {
    if (got != want) mc::fail(what + " encodes as " + got.dump(true) + " instead of " + want.dump(true));
    mc::validated();
}
static J head(const char *type, const char *status, const std::string &token, const J &payload) {
    J j = J::obj({{"request", false}, {"type", type}, {"status", status}, {"payload", payload}});
    if (!token.empty()) j.set("token", token);
    return j;
}
static void text_case(const std::string &s) {
    mc::note("text " + escaped(s));
    J js(s), raw = J::raw(escaped(s));
    // requests, both spellings
    for (int i = 0; i < 2; i++) {
        const J &t = i ? raw : js;
        auto req = [&](const char *type, const J &p) {
            auto text = J::obj({{"token", t}, {"request", true}, {"type", type}, {"payload", p}}).dump();
            auto q = Request::parse_request(text);
            if (q->status() != status_code::success) mc::fail("request rejected: " + text);
            if (q->get_token() != s) mc::fail("token changed: " + text);
            mc::evaluation();
            return std::make_pair(decoded(*q), text);
        };
        auto eq = [&](const std::pair<Fields, std::string> &f, const char *n) {
            if (f.first.at(n) != s) mc::fail(std::string(n) + " changed to '" + f.first.at(n) + "': " + f.second);
        };
        auto b = req("breakpoint", J::obj({{"action", "add"}, {"filename", t}, {"line_num", 1}, {"condition", t}}));
        eq(b, "filename");
        eq(b, "condition");
        eq(req("breakpoint-id", J::obj({{"action", "add"}, {"id", 1}, {"condition", t}})), "condition");
        J mp = J::obj();
        if (!i) mp.o.emplace_back(s, js);
        auto cn = req("connection", J::obj({{"db_filename", t}, {"path-mapping", mp}}));
        eq(cn, "db_filename");
        if (!i && cn.first.at("path-mapping") != s + "->" + s + ";") mc::fail("path mapping changed: " + cn.second);
        eq(req("bp-location", J::obj({{"filename", t}})), "filename");
        eq(req("evaluation", J::obj({{"expression", t}})), "expression");
        eq(req("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "changed"}, {"var_name", t}})), "var_name");
        eq(req("set-value", J::obj({{"value", 3}, {"var_name", t}})), "var_name");
        auto d = req("data-breakpoint", J::obj({{"action", "add"}, {"var_name", t}, {"breakpoint-id", 1}, {"condition", t}}));
        eq(d, "var_name");
        eq(d, "condition");
    }
    // responses
    auto q = Request::parse_request(J::obj({{"token", js}, {"request", true}, {"type", "command"}, {"payload", J::obj({{"command", "stop"}})}}).dump());
    for (auto st : {status_code::success, status_code::error}) {
        GenericResponse g(st, *q, s);
        g.set_value("text", s);
        g.set_value("num", (int64_t)-5);
        g.set_value("flag", true);
        J p = J::obj({{"request-type", "command"}, {"text", js}, {"num", -5}, {"flag", true}});
        if (st == status_code::error) p.set("reason", js);
        expect(plain(g, "generic response"), head("generic", st == status_code::success ? "success" : "error", s, p), "generic response");
        GenericResponse g2(st, RequestType::path_mapping, s);
        g2.set_value(s, s);
        g2.set_token("t");
        J p2 = J::obj({{"request-type", "path-mapping"}});
        if (st == status_code::error) p2.set("reason", js);
        if (s != "reason" && s != "request-type") {
            p2.set(s, js);
            expect(plain(g2, "generic response"), head("generic", st == status_code::success ? "success" : "error", "t", p2), "generic response");
        }
    }
    {
        BreakPoint a;
        a.id = 4294967295u;
        a.filename = s;
        a.line_num = 4294967295u;
        a.column_num = 0;
        BreakPoint b2;
        b2.id = 0;
        b2.filename = "x";
        b2.line_num = 7;
        b2.column_num = 4294967295u;
        BreakPointLocationResponse r({&a, &b2});
        r.set_token(s);
        expect(plain(r, "location response"),
               head("bp-location", "success", s, J::arr({J::obj({{"id", 4294967295u}, {"filename", js}, {"line_num", 4294967295u}, {"column_num", 0}}), J::obj({{"id", 0}, {"filename", "x"}, {"line_num", 7}, {"column_num", 4294967295u}})})),
               "location response");
    }
    {
        BreakPointResponse r(18446744073709551615ull, s, 4294967296ull, 3);
        BreakPointResponse::Scope sc(7, s, 18446744073709551615ull, 9);
        sc.add_local_value(s, s);
        sc.add_local_value("zz", "1");
        sc.add_local_value("zz", s);  // later ones win
        sc.add_generator_value(s, s);
        sc.bp_type = s;
        r.add_scope(sc);
        r.add_scope(BreakPointResponse::Scope(1, "i", 2));
        J loc = J::obj({{"zz", js}});
        loc.set(s, js);
        J gen = J::obj();
        gen.set(s, js);
        J e1 = J::obj({{"instance_id", 7}, {"instance_name", js}, {"breakpoint_id", uint64_t(18446744073709551615ull)}, {"namespace_id", 9}, {"local", loc}, {"generator", gen}});
        if (!s.empty()) e1.set("bp_type", js);
        J e2 = J::obj({{"instance_id", 1}, {"instance_name", "i"}, {"breakpoint_id", 2}, {"namespace_id", 0}, {"local", J::obj()}, {"generator", J::obj()}});
        expect(plain(r, "breakpoint response"), head("breakpoint", "success", "", J::obj({{"time", uint64_t(18446744073709551615ull)}, {"filename", js}, {"line_num", uint64_t(4294967296ull)}, {"column_num", 3}, {"instances", J::arr({e1, e2})}})), "breakpoint response");
    }
    {
        DebuggerInformationResponse r(s);
        r.set_token(s);
        expect(plain(r, "status"), head("debugger-info", "success", s, J::obj({{"command", "status"}, {"status", js}})), "status");
        DebuggerInformationResponse f(std::vector<std::string>{s, "b", s});
        expect(plain(f, "filenames"), head("debugger-info", "success", "", J::obj({{"command", "filename"}, {"filenames", J::arr({js, "b", js})}})), "filenames");
        DebuggerInformationResponse o(std::map<std::string, std::string>{{s, "true"}, {"k", "false"}, {"n", "-12"}, {"t", s}});
        J ov = J::obj({{"k", false}, {"n", -12}, {"t", js}});
        // options are booleans and numbers
        if (s == "0" || s == "-1") ov.set("t", J::raw(s));
        if (s == "true" || s == "false") ov.set("t", s == "true");
        if (s != "k" && s != "n" && s != "t") {
            ov.set(s, true);
            expect(plain(o, "options"), head("debugger-info", "success", "", J::obj({{"command", "options"}, {"options", ov}})), "options");
        }
        DebuggerInformationResponse d(std::map<std::string, std::map<std::string, uint32_t>>{{s, {{s, 4294967295u}}}, {"q", {}}});
        J in = J::obj(), dv = J::obj({{"q", J::obj()}});
        in.set(s, 4294967295u);
        dv.set(s, in);
        if (s != "q") expect(plain(d, "design"), head("debugger-info", "success", "", J::obj({{"command", "design"}, {"design", dv}})), "design");
        DebugBreakPoint bp;
        bp.id = 9;
        bp.filename = s;
        bp.line_num = 2;
        bp.column_num = 4;
        bp.target_rtl_var_name = s;
        bp.type = DebugBreakPoint::Type::data;
        DebuggerInformationResponse b(std::vector<const DebugBreakPoint *>{&bp});
        J be = J::obj({{"id", 9}, {"filename", js}, {"line_num", 2}, {"column_num", 4}, {"type", 2}});
        if (!s.empty()) be.set("var", js);
        expect(plain(b, "breakpoints"), head("debugger-info", "success", "", J::obj({{"command", "breakpoints"}, {"breakpoints", J::arr({be})}})), "breakpoints");
        EvaluationResponse e(s);
        e.set_token(s);
        expect(plain(e, "evaluation"), head("evaluation", "success", s, J::obj({{"result", js}})), "evaluation");
        MonitorResponse m(18446744073709551615ull, 3, s);
        expect(plain(m, "monitor"), head("monitor", "success", "", J::obj({{"track_id", uint64_t(18446744073709551615ull)}, {"namespace_id", 3}, {"value", js}})), "monitor");
    }
    mc::state(mc::hash(s));
    mc::nontrivial(mc::hash(s));
    mc::transition();
}
static bool eq(const BreakPoint &a, const BreakPoint &b) {
    return a.id == b.id && !!a.instance_id == !!b.instance_id && (!a.instance_id || *a.instance_id == *b.instance_id) && a.filename == b.filename && a.line_num == b.line_num && a.column_num == b.column_num && a.condition == b.condition && a.trigger == b.trigger;
}
static bool eq(const std::unique_ptr<uint32_t> &a, const std::unique_ptr<uint32_t> &b) { return !!a == !!b && (!a || *a == *b); }
static BreakPoint mk_bp(uint32_t v, const std::string &s) {
    BreakPoint b;
    b.id = v;
    b.instance_id = std::make_unique<uint32_t>(v ? 4294967295u : 0);
    b.filename = s;
    b.line_num = 4294967295u - v;
    b.column_num = v;
    b.condition = s + "a";
    b.trigger = s;
    return b;
}
// symbol table messages there and back
static void symbol_case(const std::string &s) {
    using R = SymbolRequest::request_type;
    static const R all[] = {R::get_breakpoint, R::get_breakpoints, R::get_instance_name, R::get_instance_id, R::get_context_variables, R::get_generator_variables, R::get_instance_names, R::get_annotation_values, R::get_all_array_names, R::get_filenames, R::get_execution_bp_orders, R::get_assigned_breakpoints};
    for (auto ty : all)
        for (uint32_t v : {0u, 1u, 4294967295u}) {
            mc::evaluation();
            mc::note("symbol " + std::to_string((int)ty) + " " + escaped(s));
            SymbolRequest a(ty);
            if (ty == R::get_breakpoint || ty == R::get_context_variables || ty == R::get_assigned_breakpoints) a.breakpoint_id = v;
            if (ty == R::get_instance_id) {
                a.instance_name = s;
                if (s.empty()) a.breakpoint_id = v;
            }
            if (ty == R::get_instance_name || ty == R::get_generator_variables) a.instance_id = v;
            if (ty == R::get_breakpoints) {
                a.filename = s;
                a.line_num = v;
                a.column_num = 4294967295u - v;
            }
            if (ty == R::get_annotation_values || ty == R::get_assigned_breakpoints) a.name = s;
            J m;
            auto text = a.str();
            if (!mj::parse(text, m)) mc::fail("invalid JSON " + text);
            if (!(m["request"].t == J::Bool && m["request"].b) || m["type"].s != "symbol" || m["payload"].t != J::Obj) mc::fail("no symbol request: " + text);
            SymbolRequest b(R::get_filenames == ty ? R::get_breakpoint : R::get_filenames);
            b.parse_payload(m["payload"].dump());
            if (b.status() != status_code::success || b.req_type() != ty || b.breakpoint_id != a.breakpoint_id || b.instance_name != a.instance_name || b.instance_id != a.instance_id || b.filename != a.filename || b.line_num != a.line_num || b.column_num != a.column_num || b.name != a.name)
                mc::fail("symbol request changes: " + text);
            // responses with 0..2 results
            for (int n = 0; n < 3; n++) {
                SymbolResponse x(ty);
                if (n) x.str_result = s;
                if (n) x.uint64_t_result = v;
                if (n) x.bp_result = mk_bp(v, s);
                for (int i = 0; i < n; i++) {
                    x.bp_results.push_back(mk_bp(v ^ (unsigned)i, s));
                    x.str_results.push_back(i ? "x" : s);
                    x.uint64_t_results.push_back(v ^ (unsigned)i);
                    x.var_result.emplace_back(v ^ (unsigned)i, s, i ? s : "");
                    ContextVariable c;
                    c.name = s;
                    if (i == 0) c.breakpoint_id = std::make_unique<uint32_t>(v);
                    if (n == 2) c.variable_id = std::make_unique<uint32_t>(v);
                    c.type = (unsigned)i;
                    c.depth = v;
                    Variable var;
                    var.id = v;
                    var.value = s + "v";
                    var.is_rtl = i == 0;
                    x.context_vars_result.emplace_back(std::move(c), var);
                    GeneratorVariable g;
                    g.name = s;
                    if (i == 0) g.instance_id = std::make_unique<uint32_t>(v);
                    if (n == 2) g.variable_id = std::make_unique<uint32_t>(v);
                    g.annotation = i ? s : "";
                    var.is_rtl = i == 1;
                    x.gen_vars_result.emplace_back(std::move(g), var);
                }
                for (bool pretty : {false, true}) {
                    auto t = x.str(pretty);
                    J jj;
                    if (!mj::parse(t, jj)) mc::fail("invalid JSON " + t);
                    SymbolResponse y(ty);
                    y.parse(t);
                    bool ok = true;
                    switch (ty) {
                        case R::get_breakpoint:
                            ok = !!x.bp_result == !!y.bp_result && (!x.bp_result || eq(*x.bp_result, *y.bp_result));
                            break;
                        case R::get_breakpoints:
                            ok = x.bp_results.size() == y.bp_results.size();
                            for (size_t i = 0; ok && i < x.bp_results.size(); i++) ok = eq(x.bp_results[i], y.bp_results[i]);
                            break;
                        case R::get_instance_name:
                            ok = x.str_result == y.str_result;
                            break;
                        case R::get_instance_id:
                            ok = x.uint64_t_result == y.uint64_t_result;
                            break;
                        case R::get_context_variables:
                            ok = x.context_vars_result.size() == y.context_vars_result.size();
                            for (size_t i = 0; ok && i < x.context_vars_result.size(); i++) {
                                auto &[c1, v1] = x.context_vars_result[i];
                                auto &[c2, v2] = y.context_vars_result[i];
                                ok = c1.name == c2.name && eq(c1.breakpoint_id, c2.breakpoint_id) && eq(c1.variable_id, c2.variable_id) && c1.type == c2.type && c1.depth == c2.depth && v1.id == v2.id && v1.value == v2.value && v1.is_rtl == v2.is_rtl;
                            }
                            break;
                        case R::get_generator_variables:
                            ok = x.gen_vars_result.size() == y.gen_vars_result.size();
                            for (size_t i = 0; ok && i < x.gen_vars_result.size(); i++) {
                                auto &[c1, v1] = x.gen_vars_result[i];
                                auto &[c2, v2] = y.gen_vars_result[i];
                                ok = c1.name == c2.name && eq(c1.instance_id, c2.instance_id) && eq(c1.variable_id, c2.variable_id) && c1.annotation == c2.annotation && v1.id == v2.id && v1.value == v2.value && v1.is_rtl == v2.is_rtl;
                            }
                            break;
                        case R::get_execution_bp_orders:
                            ok = x.uint64_t_results == y.uint64_t_results;
                            break;
                        case R::get_assigned_breakpoints:
                            ok = x.var_result == y.var_result;
                            break;
                        default:
                            ok = x.str_results == y.str_results;
                    }
                    if (!ok) mc::fail("symbol response changes: " + t);
                    mc::validated();
                }
            }
        }
}
static void text(size_t top) {
    auto &a = alphabet();
    auto &s = a[top % a.size()];
    text_case(s);
    symbol_case(s);
    for (auto &x : a) {
        text_case(s + x);
        if (mc::thorough()) symbol_case(s + x);
    }
    if (mc::thorough())
        for (auto &x : a)
            for (auto &y : a) text_case(s + x + y);
    if (top == 0) {
        for (auto *x : {"", "true", "false", "null", "-1", "reason", "abc def"}) {
            text_case(x);
            symbol_case(x);
        }
        text_case(std::string(5000, 'x') + "\"");
    }
}
// ---- names of local variables: none is lost, whatever they are ----
static void names(size_t) {
    std::vector<std::string> n = {"a", "b", "a.0", "a.1", "a.2", "a.10", "a[0]", "a[1]", "a[10]", "a.b", "a.b.c", "a.0.1", "a[0][1]", "a[0].1", "a.00", "a.01", "0", "1", "10", "00", "", ".", "..", "[", "]", "[]", "[0]", "a.", ".a", "a..0", "a.99999999999999999999", "a.99999999999999999998", "a.0x", "a.x0", "A", "a b", "\"", "a\\"};
    auto cmp = BreakPointResponse::LocalVarNameCompare();
    for (auto &x : n)
        for (auto &y : n) {
            bool l = cmp(x, y), r = cmp(y, x);
            if (l && r) mc::fail("names '" + x + "' and '" + y + "' are before each other");
            if (x == y ? l : !l && !r) mc::fail("names '" + x + "' and '" + y + "' are taken for the same");
            for (auto &z : n)
                if (l && cmp(y, z) && !cmp(x, z)) mc::fail("order of the names '" + x + "', '" + y + "', '" + z + "' is cyclic");
        }
    // any three of them in a response
    for (auto &x : n)
        for (auto &y : n)
            for (auto &z : n) {
                BreakPointResponse r(1, "f", 2);
                BreakPointResponse::Scope sc(1, "i", 1);
                J loc = J::obj();
                int k = 0;
                for (auto *s : {&x, &y, &z}) {
                    sc.add_local_value(*s, std::to_string(k));
                    loc.set(*s, std::to_string(k++));
                }
                r.add_scope(sc);
                J j;
                mc::evaluation();
                if (!mj::parse(r.str(false), j)) mc::fail("invalid JSON");
                if (j["payload"]["instances"].a[0]["local"] != loc) mc::fail("local variables " + loc.dump() + " are encoded as " + j["payload"]["instances"].a[0]["local"].dump());
            }
    mc::nontrivial(78);
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C27";
    size_t n1 = reqs().size() * 32, n2 = alphabet().size();
    c.tops = [=] { return n1 + n2 + 2; };
    c.body = [=](size_t t) {
        if (t < n1) return requests(t);
        t -= n1;
        if (t < n2) return text(t);
        t -= n2;
        if (t == 0) return envelope(t);
        names(t);
    };
    return mc::main_(argc, argv, c);
}
