// Every message that differs from a well-formed request in one place, what has to come back, and
// the states of the debugger it is sent in.
#pragma once
#include "model.hh"

namespace msg {
using namespace model;

enum T { Str, U32, U64, I64, Bool, Map, Any };
struct Field {
    std::string name, text;  // JSON text of the value
    T type = Any;
    bool required = false;
    std::vector<std::string> values;  // the words allowed, if not all
};
struct Base {
    std::string type;
    std::vector<Field> f;
};
inline std::string q(const std::string &s) { return "\"" + s + "\""; }
inline const std::vector<Base> &bases(const std::string &db) {
    static std::map<std::string, std::vector<Base>> all;
    auto &r = all[db];
    if (!r.empty()) return r;
    std::vector<std::string> add = {"add", "remove"};
    std::vector<std::string> cmd = {"continue", "step_over", "step_back", "reverse_continue", "jump", "stop"};
    std::vector<std::string> info = {"breakpoints", "status", "options", "design", "filename"};
    auto fn = [](const char *f) { return Field{"filename", q(f), Str, true, {}}; };
    auto act = [&](const char *a) { return Field{"action", q(a), Str, true, add}; };
    Field inst{"instance_id", "0", U32}, bp{"breakpoint_id", "3", U32}, ns{"namespace_id", "0", U64}, cond{"condition", q("a"), Str};
    r.push_back({"breakpoint", {act("add"), fn("dut.py"), {"line_num", "2", U32, true}, {"column_num", "0", U32}, cond}});
    r.push_back({"breakpoint", {act("remove"), fn("dut.py"), {"line_num", "1", U32}}});
    r.push_back({"breakpoint-id", {act("add"), {"id", "2", U32, true}, cond}});
    r.push_back({"breakpoint-id", {act("remove"), {"id", "0", U32, true}}});
    r.push_back({"connection", {{"db_filename", q(db), Str, true}, {"path-mapping", "{\"/x\":\"/y\"}", Map}}});
    r.push_back({"bp-location", {fn("dut.py"), {"line_num", "1", U32}, {"column_num", "0", U32}}});
    for (auto *c : {"continue", "step_over", "step_back", "reverse_continue"}) r.push_back({"command", {{"command", q(c), Str, true, cmd}}});
    r.push_back({"command", {{"command", q("jump"), Str, true, cmd}, {"time", "10", U64, true}}});
    for (auto &c : info) r.push_back({"debugger-info", {{"command", q(c), Str, true, info}}});
    r.push_back({"path-mapping", {{"path-mapping", "{\"/x\":\"/y\"}", Map, true}}});
    r.push_back({"evaluation", {{"expression", q("a+b"), Str, true}, bp, inst, ns}});
    r.push_back({"evaluation", {{"expression", q("p||!r"), Str, true}, {"instance_id", "3", U32}}});
    r.push_back({"option-change", {{"single_thread_mode", "false"}, {"use_hex_str", "false"}}});
    r.push_back({"monitor", {{"action_type", q("add"), Str, true, add}, {"monitor_type", q("clock_edge"), Str, true, {"breakpoint", "clock_edge", "changed"}}, {"var_name", q("a"), Str, true}, inst, ns}});
    r.push_back({"monitor", {{"action_type", q("add"), Str, true, add}, {"monitor_type", q("breakpoint"), Str, true, {"breakpoint", "clock_edge", "changed"}}, {"var_name", q("x"), Str, true}, bp, ns}});
    r.push_back({"monitor", {{"action_type", q("remove"), Str, true, add}, {"track_id", "0", U64, true}}});
    r.push_back({"set-value", {{"var_name", q("a"), Str, true}, {"value", "3", I64, true}, inst, ns}});
    r.push_back({"set-value", {{"var_name", q("x"), Str, true}, {"value", "4", I64, true}, bp, ns}});
    r.push_back({"data-breakpoint", {{"action", q("add"), Str, true, {"add", "info", "remove", "clear"}}, {"var_name", q("x"), Str, true}, {"breakpoint-id", "0", U32, true}, {"condition", q("x==1"), Str}, ns}});
    r.push_back({"data-breakpoint", {{"action", q("info"), Str, true, {"add", "info", "remove", "clear"}}, {"var_name", q("x"), Str, true}, {"breakpoint-id", "0", U32, true}}});
    r.push_back({"data-breakpoint", {{"action", q("remove"), Str, true, {"add", "info", "remove", "clear"}}, {"breakpoint-id", "0", U32, true}}});
    r.push_back({"data-breakpoint", {{"action", q("clear"), Str, true, {"add", "info", "remove", "clear"}}}});
    r.push_back({"symbol", {{"x", "1"}}});
    return r;
}

struct Message {
    std::string text;
    bool json = true;   // an object
    bool bad = false;   // has to be answered with an error
    std::string type;   // the type the reply has to name, if known
    std::string token;  // the token it has to carry
    std::string what;
};
inline std::string assemble(const std::vector<std::pair<std::string, std::string>> &m) {
    std::string s = "{";
    for (auto &p : m) s += (s.size() > 1 ? "," : "") + q(p.first) + ":" + p.second;
    return s + "}";
}
inline std::string payload(const Base &b, const std::string &skip = "", const std::string &with = "") {
    std::vector<std::pair<std::string, std::string>> m;
    for (auto &f : b.f) {
        if (f.name == skip && with.empty()) continue;
        m.emplace_back(f.name, f.name == skip ? with : f.text);
    }
    return assemble(m);
}
inline Message plain(const Base &b, const std::string &token = "t0") {
    Message m;
    m.text = assemble({{"request", "true"}, {"type", q(b.type)}, {"token", q(token)}, {"payload", payload(b)}});
    m.type = b.type;
    m.token = token;
    m.bad = b.type == "symbol";
    return m;
}
inline bool fits(const Field &f, const J &v) {
    switch (f.type) {
        case Str: {
            if (v.t != J::Str) return false;
            if (f.values.empty()) return true;
            return std::find(f.values.begin(), f.values.end(), v.str()) != f.values.end();
        }
        case Map:
            if (v.t != J::Obj) return false;
            for (auto &p : v.o)
                if (p.second.t != J::Str) return false;
            return true;
        default: return true;
    }
}
// the values every member is set to
struct Odd {
    const char *text;
    int range;  // 0: no integer; 1: u32; 2: u64 and i64; 3: negative; 4: only u64
};
inline const std::vector<std::string> &odd() {
    static std::vector<std::string> r = {
        "null", "true", "0", "1", "-1", "1.5", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "1e400000", "\"\"", "\"zzz\"", "\"a\\u0000b\"", "\"\\\\\\\"\"", "\"%s%n{0}{}\"", "\"\xc3\xa9\xf0\x9f\x98\x80\"", "[]", "[1,[2]]", "{}", "{\"a\":1}", "{\"a\":\"b\"}", "{\"\":\"\"}", q(std::string(5000, 'x')), q(std::string(300, '(') + "a"), "\"dut.c0.q\"", "\"a/0\"", "\"1 +\"", "\"x[3:1]\"", "\"add\"", "\"remove\""};
    return r;
}
inline int int_class(const std::string &t) {  // bit 0: u32, 1: u64, 2: i64
    if (t == "0" || t == "1" || t == "4294967295") return 7;
    if (t == "4294967296") return 6;
    if (t == "9223372036854775808" || t == "18446744073709551615") return 2;
    if (t == "-1") return 4;
    return 0;
}
inline std::vector<Message> mutations(const Base &b, bool texts) {
    std::vector<Message> r;
    auto put = [&](const std::string &pl, bool bad, const std::string &what) {
        Message m;
        m.text = assemble({{"request", "true"}, {"type", q(b.type)}, {"token", q("t0")}, {"payload", pl}});
        m.bad = bad || b.type == "symbol";
        m.type = b.type;
        m.token = "t0";
        m.what = what;
        r.push_back(m);
    };
    put(payload(b), false, "");
    for (auto &f : b.f) {
        put(payload(b, f.name), f.required, "without " + f.name);
        for (auto &v : odd()) {
            bool bad = false;
            J j;
            bool parsed = mj::parse(v, j);
            if (v == "null") {
                bad = f.required;
            } else if (f.type == U32) {
                bad = !(int_class(v) & 1);
            } else if (f.type == U64) {
                bad = !(int_class(v) & 2);
            } else if (f.type == I64) {
                bad = !(int_class(v) & 4);
            } else if (f.type == Str || f.type == Map) {
                bad = v == "1e400000" || !parsed || !fits(f, j);
            }
            if (v == "1e400000") {
                // not a number JSON readers have to take
                put(payload(b, f.name, v), true, f.name + " = " + v);
                r.back().json = false;
                r.back().token = "";
                r.back().type = "";
                continue;
            }
            put(payload(b, f.name, v), bad, f.name + " = " + v.substr(0, 40));
        }
    }
    // the payload and what is around it
    for (auto *v : {"null", "[]", "1", "\"\"", "true", "{}", "[{}]"}) {
        put(v, std::string(v) != "{}" || b.f[0].required, std::string("payload = ") + v);
        // as if there were none
        if (std::string(v) == "null") r.back().type = "";
    }
    auto around = [&](std::vector<std::pair<std::string, std::string>> m, bool bad, const std::string &type, const std::string &token, const std::string &what) {
        Message x;
        x.text = assemble(m);
        x.bad = bad || b.type == "symbol";
        x.type = type;
        x.token = token;
        x.what = what;
        r.push_back(x);
    };
    std::pair<std::string, std::string> rq{"request", "true"}, ty{"type", q(b.type)}, tk{"token", q("t0")}, pl{"payload", payload(b)};
    around({ty, tk, pl}, true, "", "t0", "no request");
    around({rq, tk, pl}, true, "", "t0", "no type");
    around({rq, ty, tk}, true, "", "t0", "no payload");
    around({rq, ty, pl}, false, b.type, "", "no token");
    around({pl, tk, ty, rq}, false, b.type, "t0", "reversed");
    for (auto *v : {"null", "false", "1", "\"true\"", "[]"}) around({{"request", v}, ty, tk, pl}, true, "", "t0", std::string("request = ") + v);
    for (auto *v : {"null", "1", "\"\"", "\"generic\"", "\"unknown\"", "[]", "{}", "\"Breakpoint\""}) around({rq, {"type", v}, tk, pl}, true, "", "t0", std::string("type = ") + v);
    for (auto *v : {"null", "1", "[]", "{}"}) around({rq, ty, {"token", v}, pl}, false, b.type, "", std::string("token = ") + v);
    around({rq, ty, {"token", "\"a\\\"\\\\\\n\xc3\xa9\""}, pl}, false, b.type, "a\"\\\n\xc3\xa9", "token with special characters");
    around({rq, ty, tk, pl, {"more", "[{\"x\":null}]"}}, false, b.type, "t0", "a further member");
    if (texts) {
        auto t = plain(b).text;
        auto raw = [&](const std::string &s, const std::string &what) {
            Message m;
            m.text = s;
            m.json = false;
            m.bad = true;
            m.what = what;
            r.push_back(m);
        };
        for (size_t i = 0; i < t.size(); i++) raw(t.substr(0, i), "the first " + std::to_string(i) + " bytes");
        for (size_t i = 1; i < t.size(); i += 3) raw(t.substr(i), "without the first " + std::to_string(i) + " bytes");
        raw(t + "x", "with a character after it");
        raw(t + t, "twice");
        raw("[" + t + "]", "in a list");
    }
    return r;
}
inline std::vector<Message> garbage() {
    std::vector<Message> r;
    for (auto &s : std::vector<std::string>{"", " ", "null", "[]", "1", "\"a\"", "{", "}", "{}", "{\"request\":true}", std::string("\0", 1), std::string("{\0}", 3), "\xff\xfe\xfd", std::string(100000, '['), std::string(100000, '{'), std::string(5000, ' ') + "{", std::string(100, '{') + std::string(100, '}'), "{\"request\":true,\"type\":\"command\",\"payload\":" + std::string(100000, '['), "{\"token\":\"t0\",\"request\":true,\"type\":\"evaluation\",\"payload\":{\"expression\":" + std::string(300, '[') + std::string(300, ']') + "}}", "NaN", "{\"request\":true,\"request\":false}", "/* c */ {}", "{'request':true}"}) {
        Message m;
        m.text = s;
        m.json = false;
        m.bad = true;
        m.what = "text";
        r.push_back(m);
    }
    return r;
}

// ---- the states ----
enum State { Fresh, Connected, Running, AtBp, AtStep, AtEdge, NoDbRunning, Detached, NSTATE };
static const char *STATE[] = {"not connected to a table", "before the start", "running", "paused at a breakpoint", "paused after a step", "paused at a clock edge", "running without a table", "detached"};

struct Place {
    World w;
    Kit k;
    uint64_t edges = 0;
    static world::Cfg cfg(State s) {
        world::Cfg c;
        if (s == NoDbRunning) c.args = {"sim", "+DEBUG_DISABLE_BLOCKING"};
        return c;
    }
    std::map<std::string, uint64_t> vals(int i) {
        std::map<std::string, uint64_t> v;
        for (auto &t : k.tops) v[t + ".a"] = 1 + (uint64_t)i, v[t + ".b"] = (uint64_t)i % 2, v[t + ".x"] = (uint64_t)i * 3, v[t + ".y"] = 4, v[t + ".c0.p"] = 1, v[t + ".c1.r"] = (uint64_t)i;
        return v;
    }
    Place(State s, int copies) : w(cfg(s)), k(design::kit1(copies)) {
        design::bench1(w, k);
        w.create();
        w.start();
        w.open(1);
        w.open(2);
        if (s == Fresh || s == NoDbRunning) return;
        must(w, world::r_connect(k.path));
        must(w, world::r_bp("add", "dut.py", 1, 0, "a"));
        must(w, world::r_bp("add", "child.py", 10));
        must(w, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "clock_edge"}, {"var_name", "a"}, {"instance_id", 0}, {"namespace_id", 0}})));
        must(w, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "changed"}, {"var_name", "x"}, {"breakpoint_id", 3}, {"namespace_id", 0}})));
        must(w, world::request("data-breakpoint", J::obj({{"action", "add"}, {"var_name", "x"}, {"breakpoint-id", (uint64_t)k.stmts[0].id}, {"condition", "x!=3"}, {"namespace_id", 0}})));
        if (s == Connected) return;
        if (s == AtEdge) must(w, world::request("option-change", J::obj({{"pause_at_posedge", true}})));
        w.send(1, world::r_cmd("continue"));
        if (s == Detached) {
            must(w, world::request("option-change", J::obj({{"detach_after_disconnect", true}})));
            w.close(1);
            w.close(2);
            w.edge(vals(0));
            w.open(1);
            w.open(2);
            return;
        }
        if (s == Running) return;
        w.edge(vals((int)edges++));
        if (!w.paused()) mc::fail("harness: not paused");
        if (s == AtStep) w.send(1, world::r_cmd("step_over"));
        if (!w.paused()) mc::fail("harness: not paused");
    }
    bool is_event(const Ev &e) { return e.msg["type"].str() == "breakpoint" || e.msg["type"].str() == "monitor"; }
    // the one reply to a message
    const Ev *reply(const std::vector<Ev> &evs, const Message &m) {
        const Ev *r = nullptr;
        for (auto &e : evs) {
            if (is_event(e)) continue;
            if (e.conn != 1) mc::fail("a reply to another client: " + e.text);
            if (r) mc::fail("two replies: " + r->text + " and " + e.text);
            r = &e;
        }
        return r;
    }
};
}  // namespace msg
