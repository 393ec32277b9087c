// C30: every list of breakpoint variables up to a length with every way of loading the symbol
// table, and every combination of port, blocking and logging settings given by plus-args and
// environment variables, against a debugger that gets the same by requests.
// build: asan
#include <cstdlib>
#include <iostream>
#include <sstream>

#include "model.hh"
using namespace model;

struct Env {
    std::vector<std::string> names;
    std::ostringstream err, out;
    std::streambuf *e, *o;
    Env() : e(std::cerr.rdbuf(err.rdbuf())), o(std::cout.rdbuf(out.rdbuf())) {}
    void set(const std::string &n, const std::string &v) {
        mc::trace(n + "='" + v + "'");
        setenv(n.c_str(), v.c_str(), 1);
        names.push_back(n);
    }
    void clear() {
        for (auto &n : names) unsetenv(n.c_str());
        names.clear();
    }
    ~Env() {
        clear();
        std::cerr.rdbuf(e);
        std::cout.rdbuf(o);
    }
};

// ---- breakpoints and symbol table ----
struct Val {
    const char *text;
    bool good;  // well formed
    const char *file;
    uint64_t line, col;
    const char *cond;
};
static const Val VAL[] = {
    {"dut.py:1", true, "dut.py", 1, 0, ""},
    {"child.py:10@p", true, "child.py", 10, 0, "p"},
    {"dut.py:2:7", true, "dut.py", 2, 7, ""},
    {"dut.py:3@a==1&&b==2", true, "dut.py", 3, 0, "a==1&&b==2"},
    {"dut.py:1:0@!a", true, "dut.py", 1, 0, "!a"},
    {"dut.py:1:9@a", true, "dut.py", 1, 9, "a"},
    {"child.py:11@nosuch", true, "child.py", 11, 0, "nosuch"},
    {"child.py:11@r >", true, "child.py", 11, 0, "r >"},
    {"other.py:1", true, "other.py", 1, 0, ""},
    {"dut.py:99", true, "dut.py", 99, 0, ""},
    {"child.py:11@", true, "child.py", 11, 0, ""},
    {"dut.py:4294967295", true, "dut.py", 4294967295, 0, ""},
    {"", false, "", 0, 0, ""},
    {"@", false, "", 0, 0, ""},
    {"dut.py", false, "", 0, 0, ""},
    {"dut.py:", false, "", 0, 0, ""},
    {"dut.py:one", false, "", 0, 0, ""},
    {"dut.py:1x", false, "", 0, 0, ""},
    {"dut.py:-1", false, "", 0, 0, ""},
    {"dut.py:4294967297", false, "", 0, 0, ""},
    {"dut.py:99999999999999999999", false, "", 0, 0, ""},
    {"dut.py:1:y", false, "", 0, 0, ""},
    {"dut.py:1:4294967296@a", false, "", 0, 0, ""},
    {"dut.py:1:0:0", false, "", 0, 0, ""},
};
static const int NVAL = sizeof(VAL) / sizeof(*VAL);
// how the table comes in
enum Load { ByRequest, ByEnv, ByEnvThenRequest, EnvMissing, EnvBroken, EnvThenRequestDisconnected, NLOAD };

static std::vector<std::string> session(World &w, const Kit &k) {
    std::vector<std::string> log;
    auto put = [&](const std::vector<Ev> &evs, const char *what) {
        for (auto &e : evs)
            if (e.conn == 1) log.push_back(std::string(what) + ": " + e.msg.dump());
            else mc::fail("a message for a client that is not there: " + e.text);
    };
    put(w.send(1, world::r_info("breakpoints")), "breakpoints");
    put(w.send(1, world::r_cmd("continue")), "start");
    static const int A[] = {1, 0, 1, 0}, B[] = {2, 3, 0, 0}, P[] = {1, 0, 0, 1};
    for (int i = 0; i < 4; i++) {
        std::map<std::string, uint64_t> v;
        for (int c = 0; c < k.copies; c++) {
            auto t = k.tops[c];
            v[t + ".a"] = A[i], v[t + ".b"] = B[i], v[t + ".x"] = i, v[t + ".y"] = 7, v[t + ".z"] = 9;
            v[t + ".c0.p"] = P[i], v[t + ".c1.p"] = !P[i] || c, v[t + ".c0.q"] = 3, v[t + ".c1.r"] = i;
        }
        put(w.edge(v), "edge");
        int n = 0;
        while (w.paused()) {
            if (++n > 60) mc::fail("the simulation is stopped again and again");
            put(w.send(1, world::r_cmd("continue")), "continue");
        }
    }
    put(w.send(1, world::r_info("breakpoints")), "breakpoints");
    put(w.send(1, world::r_bp("remove", "dut.py", 1)), "remove");
    put(w.send(1, world::r_info("breakpoints")), "breakpoints");
    return log;
}

static void add_column(J &j) {
    if (j.t == J::Obj && j["type"].str() == "assign" && j["line"].u() == 2) j.set("column", 7);
    for (auto &p : j.o) add_column(p.second);
    for (auto &e : j.a) add_column(e);
}
static void breakpoints(size_t top) {
    const int len = mc::thorough() ? 3 : 2;
    auto load = (Load)(top % NLOAD);
    top /= NLOAD;
    int copies = 1 + (int)(top % 2);
    top /= 2;
    auto k = design::kit1(copies);
    {
        // one statement with a column
        add_column(k.table);
        k.path = design::write_table(k.table);
    }
    auto broken = mc::scratch() + "/broken.json";
    std::ofstream(broken) << "{\"table\": [{\"type\": ";
    std::vector<int> vals;
    // the first one is the top's
    vals.push_back((int)top);
    while ((int)vals.size() < len) {
        int c = mc::choose(NVAL + 1);
        if (c == NVAL) break;
        vals.push_back(c);
    }
    if (vals[0] == NVAL) vals.clear();
    bool gap = !vals.empty() && mc::choose(2);
    std::vector<std::string> got, want;
    {
        Env env;
        for (size_t i = 0; i < vals.size(); i++) env.set("DEBUG_BREAKPOINT" + std::to_string(i), VAL[vals[i]].text);
        // what comes after the first name that is not set does not count
        if (gap) env.set("DEBUG_BREAKPOINT" + std::to_string(vals.size() + 1), "child.py:11");
        switch (load) {
            case ByEnv:
            case ByEnvThenRequest:
            case EnvThenRequestDisconnected: env.set("DEBUG_DATABASE_FILENAME", k.path); break;
            case EnvMissing: env.set("DEBUG_DATABASE_FILENAME", mc::scratch() + "/none.json"); break;
            case EnvBroken: env.set("DEBUG_DATABASE_FILENAME", broken); break;
            default: break;
        }
        World w;
        design::bench1(w, k);
        w.create();
        w.start();
        if (w.started || !w.paused()) mc::fail("the simulation is not stopped at its start");
        if ((load == EnvMissing || load == EnvBroken) && env.err.str().empty()) mc::fail("a symbol table that cannot be loaded is not reported");
        w.open(1);
        if (load == EnvMissing || load == EnvBroken) {
            // nothing is loaded
            must(w, world::r_bp("add", "dut.py", 1), "error");
        }
        if (load == EnvThenRequestDisconnected) {
            w.close(1);
            w.open(1);
        }
        if (load != ByEnv) must(w, world::r_connect(k.path));
        for (auto &e : w.evs)
            if (e.conn == 1 && e.msg["type"].str() != "generic") mc::fail("unexpected message " + e.text);
        bool bad = false;
        for (auto v : vals) bad = bad || !VAL[v].good;
        if (bad && env.err.str().empty()) mc::fail("a malformed breakpoint is not reported");
        w.evs.clear();
        got = session(w, k);
    }
    // what the requests do does not change
    static std::map<std::string, std::vector<std::string>> known;
    auto key = std::to_string(copies);
    for (auto v : vals)
        if (VAL[v].good) key += std::string(";") + VAL[v].text;
    if (known.count(key)) {
        want = known[key];
    } else {
        Env env;
        World w;
        design::bench1(w, k);
        w.create();
        w.start();
        w.open(1);
        must(w, world::r_connect(k.path));
        for (auto v : vals)
            if (VAL[v].good) w.send(1, world::r_bp("add", VAL[v].file, VAL[v].line, VAL[v].col, VAL[v].cond));
        w.evs.clear();
        known[key] = want = session(w, k);
    }
    bool hits = false;
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) {
        if (got[i] != want[i]) mc::fail("with variables:\n" + got[i] + "\nwith requests:\n" + want[i]);
        hits = hits || got[i].find("\"type\":\"breakpoint\"") != std::string::npos;
        mc::validated();
    }
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
        if (i >= got.size() || i >= want.size()) mc::fail("with variables " + std::to_string(got.size()) + " messages, with requests " + std::to_string(want.size()) + ", the last are:\n" + got.back() + "\n" + want.back());
    std::string h;
    for (auto &g : got) h += g;
    mc::state(mc::hash(h));
    if (hits) mc::nontrivial(mc::hash(h));
    mc::evaluation();
}

// ---- the others ----
static const char *PORT[] = {nullptr, "1", "8889", "65535", "65536", "-1", "", "port", "80x", "99999999999999999999", "4294976184"};
static const int PORTV[] = {-1, 1, 8889, 65535, -1, -1, -1, -1, -1, -1, -1};
static const int NPORT = sizeof(PORTV) / sizeof(*PORTV);

static void settings(size_t top) {
    // plus-arg and variable for the port
    auto pp = top % NPORT, pe = top / NPORT % NPORT;
    auto k = design::kit1(1);
    Env env;
    world::Cfg c;
    c.args = {"sim"};
    // the others: absent, plus-arg, plus-arg with a value, variable, similar name
    auto flag = [&](const char *name) {
        int h = mc::choose(6);
        switch (h) {
            case 1: c.args.push_back(std::string("+") + name); break;
            case 2: c.args.push_back(std::string("+") + name + "=1"); break;
            case 3: env.set(name, "1"); break;
            case 4: c.args.push_back(std::string("+") + name + "ING"), c.args.push_back(name); break;
            case 5: env.set(name, "1"), c.args.push_back(std::string("+") + name); break;
            default: break;
        }
        return h == 1 || h == 2 || h == 3 || h == 5;
    };
    bool block = !flag("DEBUG_DISABLE_BLOCKING");
    // logging is documented as +DEBUG_LOG=1
    bool log = flag("DEBUG_LOG");
    bool perf = !PORT[pp] && !PORT[pe] && flag("DEBUG_PERF_COUNT");
    if (PORT[pp]) c.args.push_back(std::string("+DEBUG_PORT=") + PORT[pp]);
    if (PORT[pe]) env.set("DEBUG_PORT", PORT[pe]);
    for (auto &a : c.args) mc::trace(a);
    World w(c);
    design::bench1(w, k);
    w.create();
    w.start();
    std::set<int> ports;
    if (PORT[pp]) {
        if (PORTV[pp] >= 0)
            ports = {PORTV[pp]};
        else {
            ports = {8888};
            if (PORT[pe] && PORTV[pe] >= 0) ports.insert(PORTV[pe]);
        }
    } else {
        ports = {PORT[pe] && PORTV[pe] >= 0 ? PORTV[pe] : 8888};
    }
    if (!ports.count(wsg::port)) mc::fail("the server listens at " + std::to_string(wsg::port) + ", expected " + std::to_string(*ports.begin()));
    bool bad = PORT[pp] ? PORTV[pp] < 0 : PORT[pe] && PORTV[pe] < 0;
    if (bad && env.err.str().empty()) mc::fail("a malformed port is not reported");
    if (!bad && !env.err.str().empty()) mc::fail("reported without a reason: " + env.err.str());
    if (w.started == block) mc::fail(block ? "the simulation is not stopped at its start" : "the simulation is stopped at its start");
    w.open(1);
    must(w, world::r_connect(k.path));
    auto evs = w.send(1, world::r_info("options"));
    if (evs.size() != 1) mc::fail("options: " + std::to_string(evs.size()) + " replies");
    auto &o = evs[0].msg["payload"]["options"];
    if (o["log_enabled"].b != log) mc::fail(std::string("logging is ") + (log ? "off" : "on"));
    if (o["perf_count"].b != perf) mc::fail(std::string("counting is ") + (perf ? "off" : "on"));
    if (!log && !env.out.str().empty()) mc::fail("logs although logging is off: " + env.out.str());
    if (log && env.out.str().empty()) mc::fail("does not log");
    // everything works the same
    Ref ref(w, k);
    must(w, world::r_bp("add", "dut.py", 1));
    ref.insert(k.stmts[0], uc_true());
    for (auto &s : k.stmts)
        if (s.file == "dut.py" && s.line == 1 && s.id != k.stmts[0].id) ref.insert(s, uc_true());
    if (block) {
        ref.go();
    } else {
        must(w, world::r_info("status"));
    }
    auto e1 = w.edge({{k.tops[0] + ".a", 1}});
    if (Ref::hits_in(e1).size() != 1 || !w.paused()) mc::fail("no pause at the breakpoint");
    auto e2 = w.send(1, world::r_cmd("continue"));
    if (w.paused()) mc::fail("does not continue");
    mc::state(mc::hash(std::to_string(wsg::port) + (block ? "b" : "-") + (log ? "l" : "-")));
    mc::nontrivial(mc::hash(std::to_string(top) + (block ? "b" : "-") + (log ? "l" : "-")));
    mc::validated();
    mc::evaluation();
}

// no symbol table at all
static void no_db() {
    auto k = design::kit1(1);
    Env env;
    world::Cfg c;
    c.args = {"sim", "+DEBUG_NO_DB"};
    World w(c);
    design::bench1(w, k);
    w.create();
    w.start();
    w.open(1);
    const char *file[] = {"none", "", nullptr};
    int f = mc::choose(3);
    must(w, world::r_connect(file[f] ? file[f] : k.path));
    must(w, world::r_bp("add", "dut.py", 1), "error");
    must(w, world::r_cmd("continue"));
    for (int i = 0; i < 2; i++) {
        w.edge({{k.tops[0] + ".a", 1}});
        if (w.paused()) mc::fail("stopped without a symbol table");
    }
    mc::evaluation();
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C30";
    static const size_t nb = NLOAD * 2 * (NVAL + 1), ns = NPORT * NPORT;
    c.tops = [] { return nb + ns + 1; };
    c.body = [](size_t top) {
        if (top < nb) return breakpoints(top);
        if (top < nb + ns) return settings(top - nb);
        no_db();
    };
    return mc::main_(argc, argv, c);
}
