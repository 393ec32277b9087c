from newseed import make
PRE = '''// build: plain
#include "model.hh"
using namespace model;
static size_t tops() { return 1; }
'''
POST = '''
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "demo";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
'''
make("c13-watch-id", "C13", [("src/monitor.cc", "    watched_variables_.emplace(watch_id_count_, std::move(w));\n    return watch_id_count_++;", "    watch_id_count_ = watched_variables_.size();\n    watched_variables_.emplace(watch_id_count_, std::move(w));\n    return watch_id_count_;")],
 "a monitor is removed while a later one stays, and another one is added",
 "the id of a monitor that is still active is handed out again and the new monitor is lost",
 PRE + '''
static uint64_t add(World &w, const std::string &n) {
    auto evs = w.send(1, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", "clock_edge"}, {"var_name", n}})));
    if (status(evs) != "success") mc::fail("not added");
    return evs.back().msg["payload"]["track_id"].u();
}
static void body(size_t) {
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    auto a = add(w, kit.tops[0] + ".x"), b = add(w, kit.tops[0] + ".y");
    must(w, world::request("monitor", J::obj({{"action_type", "remove"}, {"track_id", a}})));
    auto c = add(w, kit.tops[0] + ".z");
    if (c == b) mc::fail("the id is in use");
    must(w, world::r_cmd("continue"));
    std::set<uint64_t> got;
    for (auto &e : w.edge({{kit.tops[0] + ".y", 3}, {kit.tops[0] + ".z", 4}}))
        if (e.msg["type"].str() == "monitor") got.insert(e.msg["payload"]["track_id"].u());
    if (got != std::set<uint64_t>{b, c}) mc::fail("not both values are sent");
}
''' + POST)
make("c15-repeated-values", "C15", [("src/monitor.cc", "    values_.emplace(v);\n    if (values_.size() > depth_) {", "    // nothing to shift if nothing changes\n    if (values_.size() == depth_ && values_.back() == v) return;\n    values_.emplace(v);\n    if (values_.size() > depth_) {")],
 "a variable delayed by two or more edges whose value stays the same for an edge after the buffer is full",
 "the history of a delayed variable only advances when its value changes, so older values are reported",
 '''// build: plain
#include "explore.hh"
#include "monitor.hh"
#include "rtl.hh"
#include "simvpi.hh"
static size_t tops() { return 1; }
static void body(size_t) {
    auto vpi = std::make_shared<sim::Vpi>();
    vpi->args = {"sim"};
    vpi->defname = true;
    vpi->add_module("tb", "tb");
    vpi->add_module("dut", "tb.d0");
    vpi->add_signal("tb.d0.x", 32);
    hgdb::RTLSimulatorClient rtl(vpi);
    hgdb::Monitor m(&rtl);
    m.add_monitor_variable("$root.tb.d0.x", 2u, std::optional<int64_t>());
    std::vector<uint64_t> v = {5, 6, 6, 6, 7};
    for (size_t i = 0; i < v.size(); i++) {
        vpi->set("tb.d0.x", v[i]);
        auto r = m.get_watched_values(hgdb::Monitor::WatchType::delay_clock_edge);
        if (r.size() != 1) mc::fail("no value");
        if (i >= 2 && (!r[0].second || (uint64_t)*r[0].second != v[i - 2])) mc::fail("wrong value at " + std::to_string(i));
    }
}
''' + POST)
make("c10-last-batch", "C10", [("src/debug.cc", "            auto end = (i == (processor_count - 1)) ? bps.size() : (i + 1) * batch_size;", "            auto end = start + batch_size;")],
 "an odd number of more than 32 breakpoints is evaluated by two threads and the last one's condition holds",
 "the last breakpoint is not evaluated when the number of breakpoints is not a multiple of the number of threads",
 PRE.replace("plain", "mc") + '''
static void body(size_t) {
    const int n = 33;
    design::Kit k;
    k.copies = 1;
    J insts = J::arr();
    for (int i = 0; i < n; i++) insts.push(J::obj({{"name", "c" + std::to_string(i)}, {"module", "child"}}));
    J dut = J::obj({{"type", "module"}, {"name", "dut"}, {"scope", J::arr()}, {"variables", J::arr()}, {"instances", insts}});
    J child = J::obj({{"type", "module"}, {"name", "child"},
                      {"scope", J::arr({J::obj({{"type", "block"}, {"filename", "child.py"}, {"scope", J::arr({design::assign("q", "q", 10)})}})})},
                      {"variables", J::arr()}, {"instances", J::arr()}});
    k.table = J::obj({{"table", J::arr({dut, child})}, {"top", "dut"}, {"generator", "check"}});
    k.tops = {"tb.d0"};
    k.path = design::write_table(k.table);
    World w;
    auto &v = *w.vpi;
    v.add_module("tb", "tb");
    v.add_module("dut", "tb.d0");
    v.add_signal("tb.d0.clk", 1);
    for (int i = 0; i < n; i++) {
        auto c = "tb.d0.c" + std::to_string(i);
        v.add_module("child", c);
        v.add_signal(c + ".q", 8);
    }
    w.cfg.clk = "tb.d0.clk";
    bring_up(w, k);
    must(w, world::r_bp("add", "child.py", 10, 0, ""));
    must(w, world::r_cmd("continue"));
    size_t seen = 0;
    auto evs = w.edge({});
    for (int i = 0; i < 100; i++) {
        for (auto &h : Ref::hits_in(evs)) seen += h.scopes.size();
        if (!w.paused()) break;
        evs = w.send(1, world::r_cmd("continue"));
    }
    if (seen != (size_t)n) mc::fail(std::to_string(seen) + " of " + std::to_string(n) + " instances hit");
}
''' + POST)
make("c32-first-column", "C32", [("src/db.cc", "    std::lock_guard guard(db_lock_);\n    if (col_num != 0) {\n        bps = db_->get_all", "    std::lock_guard guard(db_lock_);\n    // statements start at column 1 unless the line has several of them\n    if (col_num > 1) {\n        bps = db_->get_all")],
 "two statements in one line, a query for the one in column 1 of an SQLite symbol table",
 "a query for column 1 returns the statements of all columns of that line",
 '''// build: plain orm
#include "db.hh"
#include "explore.hh"
static size_t tops() { return 1; }
static void body(size_t) {
    auto db = std::make_unique<hgdb::SQLiteDebugDatabase>(hgdb::init_debug_db(""));
    hgdb::store_instance(*db, 0, "top");
    hgdb::store_breakpoint(*db, 0, 0, "/a.py", 1, 1);
    hgdb::store_breakpoint(*db, 1, 0, "/a.py", 1, 9);
    hgdb::DBSymbolTableProvider t(std::move(db));
    auto at = [&](uint32_t col) {
        std::string s;
        for (auto &b : t.get_breakpoints("/a.py", 1, col)) s += std::to_string(b.id) + " ";
        return s;
    };
    if (at(9) != "1 ") mc::fail("column 9: " + at(9));
    if (at(1) != "0 ") mc::fail("column 1: " + at(1));
}
''' + POST)
make("c21-shared-slice", "C21", [("src/rtl.cc", "    auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;", "    // slices are used again and again\n    for (auto const &[handle, info] : mock_slice_handles_) {\n        if (std::get<0>(info) == parent && std::get<2>(info) == lo) return handle;\n    }\n    auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;")],
 "two slices of one signal which start at the same bit and have different widths are read in one session",
 "the second slice is read with the width of the first one",
 '''// build: plain
#include "explore.hh"
#include "rtl.hh"
#include "simvpi.hh"
static size_t tops() { return 1; }
static void body(size_t) {
    auto vpi = std::make_shared<sim::Vpi>();
    vpi->args = {"sim"};
    vpi->defname = true;
    vpi->add_module("tb", "tb");
    vpi->add_module("dut", "tb.d0");
    vpi->add_signal("tb.d0.x", 16);
    hgdb::RTLSimulatorClient rtl(vpi);
    vpi->set("tb.d0.x", 0xabcd);
    if (rtl.get_value("$root.tb.d0.x[3:0]") != 0xd) mc::fail("x[3:0]");
    if (rtl.get_value("$root.tb.d0.x[11:4]") != 0xbc) mc::fail("x[11:4]");
    if (rtl.get_value("$root.tb.d0.x[7:0]") != 0xcd) mc::fail("x[7:0]");
}
''' + POST)
make("c19-mapping-kept", "C19", [("src/symbol.cc", "    src_remap_ = mapping;", "    for (auto const &[client, db] : mapping) src_remap_[client] = db;")],
 "a path mapping is replaced by one that does not have some of its paths",
 "paths of an earlier mapping stay in use",
 PRE + '''
static void body(size_t) {
    auto j = design::kit1(1);
    World w;
    design::bench1(w, j);
    auto db = hgdb::create_symbol_table(j.path);
    if (!db) mc::fail("no table");
    db->set_src_mapping({{"/client/a", "/db/a"}});
    if (db->resolve_filename_to_db("/client/a/x.py") != "/db/a/x.py") mc::fail("not mapped");
    db->set_src_mapping({{"/client/b", "/db/b"}});
    if (db->resolve_filename_to_db("/client/b/x.py") != "/db/b/x.py") mc::fail("not mapped");
    if (db->resolve_filename_to_db("/client/a/x.py") != "/client/a/x.py") mc::fail("still mapped");
}
''' + POST)
make("c12-prefix-name", "C12", [("src/symbol.cc", "    if (tokens_a.size() != tokens_b.size()) return false;", "    if (tokens_a.size() > tokens_b.size()) return false;")],
 "a name in a scope whose beginning is the name of a variable of that scope",
 "x.y and x[3] are resolved as x in a scope that has x, so what does not exist is written and watched",
 PRE + '''
static void body(size_t) {
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    w.vpi->set(kit.tops[0] + ".x", 5);
    auto set = [&](const char *n) { return status(w.send(1, world::request("set-value", J::obj({{"var_name", n}, {"value", 7}, {"breakpoint_id", kit.stmts[1].id}})))); };
    std::string name = kit.stmts[0].target;
    auto st = set((name + ".nosuch").c_str());
    if (st != "error") mc::fail("answered with " + st);
    if (w.vpi->get(kit.tops[0] + ".x") != 5) mc::fail("written");
}
''' + POST)
make("c26-stale-slice", "C26", [("tools/vcd/vcd.cc", "    } else {\n        var_def.slice = \"\";\n    }", "    }")],
 "a variable with a bit range is declared before one without",
 "the bit range of an earlier declaration is reported for variables that have none",
 '''// build: plain +tools/vcd/vcd.cc
#include <fstream>
#include <filesystem>
#include "explore.hh"
#include "vcd.hh"
static size_t tops() { return 1; }
static void body(size_t) {
    auto p = mc::scratch() + "/a.vcd";
    std::ofstream(p) << "$scope module m $end\\n$var wire 8 ! a [7:0] $end\\n$var wire 1 % b $end\\n$upscope $end\\n$enddefinitions $end\\n#0\\n1%\\n";
    hgdb::vcd::VCDParser v(p);
    std::string s;
    v.set_on_var_def([&](const hgdb::vcd::VCDVarDef &d) { s += d.name + d.slice + ";"; });
    v.parse();
    if (s != "a[7:0];b;") mc::fail(s);
}
''' + POST)
make("c13-kind-ignored", "C13", [("src/monitor.cc", "        if (var->handle == handle && var->type == watch_type) [[unlikely]] {", "        if (var->handle == handle && (var->type == watch_type || var->type > WatchType::breakpoint)) [[unlikely]] {")],
 "a variable that is watched by a data breakpoint or for its changes is monitored in another way, too",
 "a monitor added for a variable that is already watched otherwise gets the other one's id and is never reported",
 PRE + '''
static void body(size_t) {
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    auto add = [&](const char *kind) {
        auto evs = w.send(1, world::request("monitor", J::obj({{"action_type", "add"}, {"monitor_type", kind}, {"var_name", kit.tops[0] + ".x"}})));
        if (status(evs) != "success") mc::fail("not added");
        return evs.back().msg["payload"]["track_id"].u();
    };
    auto a = add("changed"), b = add("clock_edge");
    must(w, world::r_cmd("continue"));
    for (int e = 0; e < 2; e++) {
        std::set<uint64_t> got;
        for (auto &x : w.edge({{kit.tops[0] + ".x", 3}}))
            if (x.msg["type"].str() == "monitor") got.insert(x.msg["payload"]["track_id"].u());
        if (!got.count(b) || got.count(a) != (e == 0)) mc::fail("edge " + std::to_string(e));
    }
}
''' + POST)
