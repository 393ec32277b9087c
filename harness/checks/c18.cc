// C18: remote symbol tables (TCP and websocket) served by an independent server: every query equals
// the table's contents; every fragmentation of the byte stream, every point and way of losing the
// connection and every kind of useless answer at every request of a history.
// build: plain
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <cerrno>
#include <cstring>
#include <fstream>

#include "db.hh"
#include "fiber.hh"
#include "refdb.hh"
#include "ws_glue.hh"
using namespace refdb;

// ---- the server: answers from a table loaded locally, in the documented format ----
struct Server {
    std::unique_ptr<hgdb::SymbolTableProvider> db;
    uint64_t requests = 0;
    static J bp(const hgdb::BreakPoint &b) {
        return J::obj({{"id", (int64_t)b.id}, {"instance_id", (int64_t)*b.instance_id}, {"filename", b.filename}, {"line_num", (int64_t)b.line_num}, {"column_num", (int64_t)b.column_num}, {"condition", b.condition}, {"trigger", b.trigger}});
    }
    static J strs(const std::vector<std::string> &l) {
        J r = J::arr();
        for (auto &x : l) r.push(x);
        return r;
    }
    static J var(const hgdb::Variable &v) { return J::obj({{"id", (int64_t)v.id}, {"value", v.value}, {"is_rtl", v.is_rtl}}); }
    std::string answer(const std::string &text) {
        requests++;
        J m;
        if (!mj::parse(text, m)) mc::fail("a request that is no JSON: " + text);
        if (!(m["request"].t == J::Bool && m["request"].b) || m["type"].s != "symbol") mc::fail("not a symbol request: " + text);
        auto &p = m["payload"];
        auto t = p["type"].str();
        J r;
        auto num = [&](const char *k) {
            if (!p.has(k)) mc::fail(std::string("request without ") + k + ": " + text);
            return (uint32_t)p[k].u();
        };
        if (t == "get_breakpoint") {
            if (auto b = db->get_breakpoint(num("breakpoint_id"))) r = bp(*b);
        } else if (t == "get_breakpoints") {
            r = J::arr();
            auto f = p["filename"].str();
            for (auto &b : p["line_num"].u() ? db->get_breakpoints(f, num("line_num"), num("col_num")) : db->get_breakpoints(f)) r.push(bp(b));
        } else if (t == "get_instance_name") {
            if (auto n = db->get_instance_name(num("instance_id"))) r = J(*n);
        } else if (t == "get_instance_id") {
            auto id = p.has("instance_name") ? db->get_instance_id(p["instance_name"].str()) : db->get_instance_id((uint64_t)num("breakpoint_id"));
            if (id) r = J((int64_t)*id);
        } else if (t == "get_context_variables") {
            r = J::arr();
            for (auto &x : db->get_context_variables(num("breakpoint_id")))
                r.push(J::arr({J::obj({{"name", x.first.name}, {"breakpoint_id", p["breakpoint_id"]}, {"variable_id", (int64_t)x.second.id}, {"type", (int64_t)x.first.type}, {"depth", (int64_t)x.first.depth}}), var(x.second)}));
        } else if (t == "get_generator_variables") {
            r = J::arr();
            for (auto &x : db->get_generator_variable(num("instance_id")))
                r.push(J::arr({J::obj({{"name", x.first.name}, {"instance_id", p["instance_id"]}, {"variable_id", (int64_t)x.second.id}, {"annotation", x.first.annotation}}), var(x.second)}));
        } else if (t == "get_instance_names")
            r = strs(db->get_instance_names());
        else if (t == "get_annotation_values")
            r = strs(db->get_annotation_values(p["name"].str()));
        else if (t == "get_all_array_names")
            r = strs(db->get_all_array_names());
        else if (t == "get_filenames")
            r = strs(db->get_filenames());
        else if (t == "get_execution_bp_orders") {
            r = J::arr();
            for (auto x : db->execution_bp_orders()) r.push((int64_t)x);
        } else if (t == "get_assigned_breakpoints") {
            r = J::arr();
            for (auto &[id, v, c] : db->get_assigned_breakpoints(p["name"].str(), num("breakpoint_id"))) r.push(J::obj({{"id", (int64_t)id}, {"value", v}, {"cond", c}}));
        } else
            mc::fail("unknown request: " + text);
        return J::obj({{"request", false}, {"type", "symbol"}, {"status", "success"}, {"result", r}}).dump();
    }
};

// ---- faults: what happens at the n-th request ----
enum Fault { None, SendFails, LostBefore, LostWithin, Reset, NoJson, NoResult, NullResult, WrongType, OtherType, Deep, Array, NFault };
static const char *fault_name(int f) {
    static const char *n[] = {"none", "send fails", "connection lost before the answer", "connection lost within the answer", "connection reset", "answer is no JSON", "answer without result", "null result", "result of a wrong type", "result is an object", "deeply nested answer", "answer is an array"};
    return n[f];
}
static bool fatal(int f) { return f == SendFails || f == LostBefore || f == LostWithin || f == Reset; }
struct Link {
    Server *server = nullptr;
    int fault = None;
    uint64_t at = 0;       // request number
    size_t cut = 0;        // bytes of the answer before it is lost
    std::vector<size_t> plan;  // sizes of the reads (repeating)
    std::string prefix, suffix;
    size_t send_max = 0;   // bytes accepted per send
    bool lost = false;
    std::string out, in;   // bytes on their way
    size_t step = 0;
    bool end = false;      // no more bytes after these
    bool rst = false;
    std::optional<std::string> exchange(const std::string &msg) {
        bool now = fault != None && server->requests == at;
        auto a = server->answer(msg);
        if (!now) return prefix + a + suffix;
        switch (fault) {
            case LostWithin: end = lost = true; return a.substr(0, std::min(cut, a.size() - 1));
            case SendFails:
            case LostBefore: end = lost = true; return std::nullopt;
            case Reset: rst = lost = true; return std::nullopt;
            case NoJson: return "{nothing}";
            case NoResult: return R"({"request":false,"type":"symbol","status":"error","payload":{"reason":"no"}})";
            case NullResult: return R"({"result":null})";
            case WrongType: return R"({"result":true})";
            case OtherType: return R"({"result":{"a":[{}]}})";
            case Deep: {
                std::string s = R"({"result":)";
                for (int i = 0; i < 50000; i++) s += "{\"a\":";
                s += "1";
                for (int i = 0; i < 50000; i++) s += "}";
                return s + "}";
            }
            case Array: return R"({"result":[{"id":"x"},3,[[]]]})";
        }
        return a;
    }
};
static Link *link_ = nullptr;

// ---- TCP: the socket calls of the process ----
static size_t take(const char *p, size_t n) {
    auto &l = *link_;
    if (l.send_max) n = std::min(n, l.send_max);
    l.out.append(p, n);
    // a request is complete when its braces are
    J m;
    if (mj::parse(l.out, m)) {
        auto a = l.exchange(l.out);
        l.out.clear();
        if (a) l.in += *a;
        l.step = 0;
    }
    return n;
}
static ssize_t give(char *p, size_t n) {
    auto &l = *link_;
    if (l.in.empty()) {
        if (l.rst) {
            errno = ECONNRESET;
            return -1;
        }
        if (l.end) return 0;
        mc::fail("waits for an answer that nobody will send");
    }
    size_t k = l.plan.empty() ? n : l.plan[l.step++ % l.plan.size()];
    k = std::min({k, n, l.in.size()});
    memcpy(p, l.in.data(), k);
    l.in.erase(0, k);
    return (ssize_t)k;
}
static bool refuse() {
    auto &l = *link_;
    if (l.lost || (l.fault == SendFails && l.server->requests == l.at)) {
        l.lost = l.end = true;
        errno = EPIPE;
        return true;
    }
    return false;
}
extern "C" {
ssize_t send(int fd, const void *b, size_t n, int f) {
    if (!link_) return ((ssize_t(*)(int, const void *, size_t, int))dlsym(RTLD_NEXT, "send"))(fd, b, n, f);
    return refuse() ? -1 : (ssize_t)take((const char *)b, n);
}
ssize_t sendmsg(int fd, const msghdr *m, int f) {
    if (!link_) return ((ssize_t(*)(int, const msghdr *, int))dlsym(RTLD_NEXT, "sendmsg"))(fd, m, f);
    if (refuse()) return -1;
    std::string s;
    for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return (ssize_t)take(s.data(), s.size());
}
ssize_t recv(int fd, void *b, size_t n, int f) {
    if (!link_) return ((ssize_t(*)(int, void *, size_t, int))dlsym(RTLD_NEXT, "recv"))(fd, b, n, f);
    return give((char *)b, n);
}
ssize_t recvmsg(int fd, msghdr *m, int f) {
    if (!link_) return ((ssize_t(*)(int, msghdr *, int))dlsym(RTLD_NEXT, "recvmsg"))(fd, m, f);
    for (size_t i = 0; i < m->msg_iovlen; i++)
        if (m->msg_iov[i].iov_len) return give((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return 0;
}
}
struct WsHooks : websocketpp::fake::ClientHooks {
    bool refuse = false;
    bool resolve(const std::string &uri) override { return uri.find("bad") == uri.npos; }
    bool connects() override { return !refuse; }
    std::optional<std::string> request(const std::string &msg) override {
        auto &l = *link_;
        if (l.lost) return std::nullopt;
        auto a = l.exchange(msg);
        if (l.fault == LostWithin && l.lost) return std::nullopt;  // messages are whole
        return a;
    }
};
static WsHooks ws;
static std::unique_ptr<hgdb::SymbolTableProvider> local(const J &t) {
    auto path = mc::scratch() + "/t.json";
    std::ofstream(path) << t.dump();
    auto p = hgdb::create_symbol_table(path);
    if (!p || p->bad()) mc::fail("harness: table " + t.dump());
    return p;
}
// run with a remote provider
template <typename F>
static void remote(bool tcp, Link &l, F f) {
    if (tcp) {
        static int srv_port;
        static int lfd = -1;
        static pid_t owner = 0;
        if (owner != getpid()) {
            owner = getpid();
            lfd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (bind(lfd, (sockaddr *)&a, sizeof a) || listen(lfd, 16)) mc::fail("harness: no loopback");
            socklen_t n = sizeof a;
            getsockname(lfd, (sockaddr *)&a, &n);
            srv_port = ntohs(a.sin_port);
        }
        link_ = nullptr;
        auto p = hgdb::create_symbol_table("tcp://127.0.0.1:" + std::to_string(srv_port));
        int c = accept(lfd, nullptr, nullptr);
        if (!p || p->bad()) mc::fail("connection refused");
        link_ = &l;
        f(*p);
        link_ = nullptr;
        p.reset();
        close(c);
    } else {
        link_ = &l;
        ws.refuse = false;
        websocketpp::fake::client_hooks = &ws;
        mcrt::on_deadlock = [](const std::string &w) { mc::fail("waits for ever: " + w); };
        mcrt::start(mcrt::Mode::Seq);
        {
            auto p = hgdb::create_symbol_table("ws://localhost:9000");
            if (!p || p->bad()) mc::fail("connection refused");
            f(*p);
        }
        mcrt::settle();
        mcrt::finish();
        link_ = nullptr;
    }
}

// ---- tables ----
static J v(const std::string &n, const std::string &val, bool rtl = true, int delay = 0) {
    J j = J::obj({{"name", n}, {"value", val}, {"rtl", rtl}});
    if (delay) j.set("type", "delay"), j.set("depth", delay);
    return j;
}
static J entry(const char *type, int line, int col, const std::string &cond, const J &var) {
    J j = J::obj({{"type", type}, {"line", line}});
    if (std::string(type) != "none") j.set("variable", var);
    if (col) j.set("column", col);
    if (!cond.empty()) j.set("condition", cond);
    return j;
}
static J block(const std::string &file, const J &scope, const std::string &cond = "") {
    J j = J::obj({{"type", "block"}, {"scope", scope}});
    if (!file.empty()) j.set("filename", file);
    if (!cond.empty()) j.set("condition", cond);
    return j;
}
static J rich(const std::string &x) {
    J sub = J::obj({{"type", "module"}, {"name", "sub"}, {"variables", J::arr({v("q", "7", false)})}, {"instances", J::arr()},
                    {"scope", J::arr({block("lib/b.py", J::arr({entry("decl", 2, 1, "", v("x", "x")), entry("assign", 3, 0, "c || d", v("x[0]", "y")), entry("none", 4, 0, "", J())}), "e")})}});
    J top = J::obj({{"type", "module"}, {"name", "top"}, {"variables", J::arr({v("g" + x, "g"), v("k" + x, "12", false)})}, {"instances", J::arr({J::obj({{"name", "a" + x}, {"module", "sub"}}), J::obj({{"name", "b"}, {"module", "sub"}})})},
                    {"scope", J::arr({block("a" + x + ".py", J::arr({entry("decl", 1, 0, "", v("n" + x, "r" + x)), entry("assign", 2, 3, "a && !b", v("n" + x, "s", true, 3)), entry("assign", 5, 0, "", v("m", "v" + x, false))}))})}});
    return J::obj({{"generator", "check"}, {"top", "top"}, {"table", J::arr({top, sub})}, {"attributes", J::arr({J::obj({{"name", "clock"}, {"value", "top.clk" + x}}), J::obj({{"name", "clock"}, {"value", "top.clk2"}})})}});
}
static const std::vector<std::string> &alphabet() {
    static std::vector<std::string> r = [] {
        std::vector<std::string> r = {""};
        for (int c = 1; c < 256; c++)
            if (c != '.' && c != '/') r.push_back(std::string(1, (char)c));
        for (auto *s : {"{", "}", "{}", "}{", "\"", "\"}", "\\", "\\\"", "\\\\\"", "\"{", "[", "]", "\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\u0000", "{\"result\":[]}"}) r.push_back(s);
        return r;
    }();
    return r;
}
static void whole(const J &t, bool tcp, Link l, bool mapped = false) {
    Server s;
    s.db = local(t);
    l.server = &s;
    mc::note(std::string(tcp ? "tcp " : "ws ") + t.dump());
    Table ref(t);
    remote(tcp, l, [&](hgdb::SymbolTableProvider &p) {
        Opt o;
        o.what = std::string(tcp ? "over TCP: " : "over websocket: ") + t.dump() + ": ";
        if (mapped) {
            p.set_src_mapping({{"/client", "lib"}, {"", ""}});
            o.to_client = [](const std::string &f) { return f.rfind("lib/", 0) == 0 ? "/client/" + f.substr(4) : f; };
        }
        Compare(p, ref, o).run();
        mc::transition(s.requests);
        mc::state(mc::hash(t.dump() + std::to_string(l.plan.empty() ? 0 : l.plan[0]) + (tcp ? "t" : "w")));
        mc::nontrivial(mc::hash(t.dump()));
    });
}
// names and values with every character
static void strings(size_t i) {
    int form = mc::choose(3);
    auto s = alphabet()[i];
    auto x = form == 0 ? s : form == 1 ? "x" + s + "y" : s + "\\";
    bool tcp = mc::choose(2);
    Link l;
    if (tcp) l.plan = {1 + i % 7, 3};
    whole(rich(x), tcp, l, false);
}
// every size of reads and writes, in front of and behind the answers
static void fragments(size_t i) {
    Link l;
    l.plan = {i + 1};
    int kind = mc::choose(5);
    if (kind == 1) l.plan = {i + 1, 1};
    if (kind == 2) l.plan = {1, i + 1};
    if (kind == 3) l.send_max = i + 1;
    if (kind == 4) {
        l.prefix = " \n";
        l.suffix = std::string(i % 5, '\n');
        // bytes behind an answer arrive with it or not
        l.plan = {i + 1 + 2};
    }
    if (kind == 4 && i % 5) return;
    int form = mc::choose(2);
    whole(rich(form ? "}\\\"{" : ""), true, l);
}
// tables of different contents
static void contents(size_t top) {
    static const char *conds[] = {"", "a", "b || c", "\"}{"};
    static const char *types[] = {"decl", "assign", "none"};
    J sc = J::arr();
    int n = 1 + (int)(top % 3);
    bool tcp = mc::choose(2);
    for (int i = 0; i < n; i++) {
        int ty = i == 0 ? (int)(top / 3 % 3) : mc::choose(3);
        sc.push(entry(types[ty], 1 + (i ? mc::choose(2) : 0), i ? mc::choose(2) : (int)(top / 9 % 2), conds[i == 1 ? mc::choose(4) : top / 18 % 4], v(i % 2 ? "x" : "y.0", i % 2 ? "7" : "sx", i % 2 == 0, i % 2 ? 0 : mc::thorough() ? mc::choose(3) : (int)top % 3)));
    }
    J t = J::obj({{"top", J::arr({"m"})}, {"table", J::arr({J::obj({{"type", "module"}, {"name", "m"}, {"variables", J::arr({v("x", "gx")})}, {"scope", J::arr({block("lib/a.py", sc)})}})})}});
    whole(t, tcp, {}, mc::choose(2));
}

// ---- histories with faults ----
struct Query {
    std::string name;
    std::function<std::string(hgdb::SymbolTableProvider &)> run;
    std::string nothing;
};
template <typename T>
static std::string opt(const T &x) {
    if (!x) return "none";
    if constexpr (std::is_same_v<std::decay_t<decltype(*x)>, std::string>)
        return "'" + *x + "'";
    else
        return std::to_string(*x);
}
static std::string lst(const std::vector<std::string> &l) {
    std::string s = "[";
    for (auto &x : l) s += x + "|";
    return s + "]";
}
static std::string bps(const std::vector<hgdb::BreakPoint> &l) {
    std::string s = "[";
    for (auto &b : l) s += Server::bp(b).dump();
    return s + "]";
}
template <typename L>
static std::string vars(const L &l) {
    std::string s = "[";
    for (auto &x : l) s += x.first.name + "=" + x.second.value + (x.second.is_rtl ? "" : "c") + "|";
    return s + "]";
}
static std::vector<Query> queries(const hgdb::SymbolTableProvider &) {
    using P = hgdb::SymbolTableProvider;
    std::vector<Query> q;
    q.push_back({"execution order", [](P &p) { std::string s = "["; for (auto x : p.execution_bp_orders()) s += std::to_string(x) + ","; return s + "]"; }, "[]"});
    q.push_back({"instances", [](P &p) { return lst(p.get_instance_names()); }, "[]"});
    q.push_back({"files", [](P &p) { return lst(p.get_filenames()); }, "[]"});
    q.push_back({"breakpoints of a file", [](P &p) { return bps(p.get_breakpoints("a.py")); }, "[]"});
    q.push_back({"breakpoints of a line", [](P &p) { return bps(p.get_breakpoints("lib/b.py", 3)); }, "[]"});
    q.push_back({"breakpoints of a column", [](P &p) { return bps(p.get_breakpoints("lib/b.py", 2, 1)); }, "[]"});
    q.push_back({"breakpoint", [](P &p) { auto b = p.get_breakpoint(1); return b ? Server::bp(*b).dump() : std::string("none"); }, "none"});
    q.push_back({"instance name", [](P &p) { return opt(p.get_instance_name(p.get_instance_id(std::string("top.b")).value_or(77))); }, "none"});
    q.push_back({"instance of a breakpoint", [](P &p) { return opt(p.get_instance_id((uint64_t)2)); }, "none"});
    q.push_back({"instance name of a breakpoint", [](P &p) { return opt(p.get_instance_name_from_bp(4)); }, "none"});
    q.push_back({"variables", [](P &p) { return vars(p.get_context_variables(2)); }, "[]"});
    q.push_back({"delayed variables", [](P &p) { return vars(p.get_context_delayed_variables(2)); }, "[]"});
    q.push_back({"constants", [](P &p) { return std::to_string(p.get_context_static_values(2).size()); }, "0"});
    q.push_back({"generator variables", [](P &p) { return vars(p.get_generator_variable((uint32_t)p.get_instance_id(std::string("top")).value_or(77))); }, "[]"});
    q.push_back({"attributes", [](P &p) { return lst(p.get_annotation_values("clock")); }, "[]"});
    q.push_back({"arrays", [](P &p) { return lst(p.get_all_array_names()); }, "[]"});
    q.push_back({"assignments", [](P &p) { std::string s = "["; for (auto &[i, n, c] : p.get_assigned_breakpoints("n", 1)) s += std::to_string(i) + n + c + "|"; return s + "]"; }, "[]"});
    q.push_back({"name in a breakpoint", [](P &p) { return opt(p.resolve_scoped_name_breakpoint("n", 1)); }, "none"});
    q.push_back({"name in an instance", [](P &p) { return opt(p.resolve_scoped_name_instance("g", p.get_instance_id(std::string("top")).value_or(77))); }, "none"});
    return q;
}
static void history(bool tcp, int fault, uint64_t at, size_t cut, const char *pl) {
    Server s;
    J t = rich("");
    s.db = local(t);
    auto plain = local(t);
    Link l;
    l.server = &s;
    l.fault = fault;
    l.at = at;
    l.cut = cut;
    if (pl) l.plan = {1};
    std::string how = std::string(tcp ? "over TCP" : "over websocket") + ", request " + std::to_string(at) + ": " + fault_name(fault);
    mc::note(how);
    remote(tcp, l, [&](hgdb::SymbolTableProvider &p) {
        for (int round = 0; round < 2; round++)
            for (auto &q : queries(p)) {
                auto before = s.requests;
                auto got = q.run(p);
                auto want = q.run(*plain);
                // did this query make the request that goes wrong, or come after the loss?
                bool hit = fault != None && (fatal(fault) ? l.lost || s.requests > at : before <= at && at < s.requests);
                if (!hit && got != want) mc::fail(how + ": " + q.name + " is " + got + ", expected " + want);
                if (hit && got != q.nothing) {
                    // a query of several requests may not need the one that failed
                    if (!fatal(fault) || got != want || before > at) mc::fail(how + ": " + q.name + " is " + got + ", expected nothing");
                }
                mc::validated();
            }
    });
    mc::transition(s.requests);
    mc::state(mc::hash(how + std::to_string(cut)));
    mc::nontrivial(mc::hash(how));
}
static const uint64_t NREQ = 60;
static void faults(size_t at) {
    bool tcp = mc::choose(2);
    int f = 1 + mc::choose(NFault - 1);
    size_t cut = 0;
    if (f == LostWithin && tcp) cut = (size_t)mc::choose(mc::thorough() ? 200 : 24) * (mc::thorough() ? 1 : 5);
    history(tcp, f, at, cut, mc::choose(2) ? "1" : nullptr);
}
static void connecting(size_t) {
    Link l;
    Server s;
    s.db = local(rich(""));
    l.server = &s;
    link_ = nullptr;
    // addresses that do not work
    for (auto *u : {"tcp://", "tcp://localhost", "tcp://127.0.0.1:", "tcp://127.0.0.1:x", "tcp://127.0.0.1:-1", "tcp://127.0.0.1:65536", "tcp://127.0.0.1:99999999999999999999", "tcp://127.0.0.1:1", "tcp://127.0.0.1:1:2", "tcp://:", "tcp:///", "nowhere.json", ""}) {
        mc::note(u);
        auto p = hgdb::create_symbol_table(u);
        if (p && !p->bad()) mc::fail(std::string("connected to ") + u);
        mc::nontrivial(mc::hash(u));
    }
    websocketpp::fake::client_hooks = &ws;
    for (int k = 0; k < 2; k++) {
        mcrt::on_deadlock = [](const std::string &w) { mc::fail("waits for ever: " + w); };
        mcrt::start(mcrt::Mode::Seq);
        ws.refuse = k == 1;
        {
            auto p = hgdb::create_symbol_table(k ? "ws://localhost:1" : "ws://bad");
            if (p && !p->bad()) mc::fail("connected to nobody");
        }
        mcrt::settle();
        mcrt::finish();
        mc::nontrivial((uint64_t)k + 1);
    }
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C18";
    size_t n1 = alphabet().size(), n2 = mc::thorough() ? 300 : 300, n3 = 72, n4 = NREQ;
    c.tops = [=] { return n1 + n2 + n3 + n4 + 1; };
    c.body = [=](size_t t) {
        if (t < n1) return strings(t);
        t -= n1;
        if (t < n2) return fragments(t);
        t -= n2;
        if (t < n3) return contents(t);
        t -= n3;
        if (t < n4) return faults(t);
        connecting(t);
    };
    return mc::main_(argc, argv, c);
}
