from newseed import make
PRE = '''// build: plain
#include "model.hh"
using namespace model;
static size_t tops() { return 1; }
'''
POST = '''
int main(int argc, char **argv) {
    mc::Check c;
    c.id = "demo";
    c.tops = tops;
    c.body = body;
    return mc::main_(argc, argv, c);
}
'''
make("c01-stale-position", "C01", [("src/scheduler.cc", "    clear_breakpoints(breakpoints_);\n    current_breakpoint_id_ = std::nullopt;\n}\n\nvoid Scheduler::set_eval", "    clear_breakpoints(breakpoints_);\n}\n\nvoid Scheduler::set_eval")],
 "two breakpoints at different positions; the later one hits at one edge and only the earlier one holds at the next edge",
 "the position in the execution order survives the end of the clock edge, so breakpoints before the last hit are skipped at following edges",
 PRE + '''
static void body(size_t) {
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    must(w, world::r_bp("add", "dut.py", 2));
    must(w, world::r_bp("add", "dut.py", 4));
    must(w, world::r_cmd("continue"));
    auto t = kit.tops[0];
    // a=0 b=0: only line 4; a=1 b=1: only line 2
    auto h = Ref::hits_in(w.edge({{t + ".a", 0}, {t + ".b", 0}}));
    if (h.size() != 1 || h[0].line != 4) mc::fail("line 4 not hit");
    must(w, world::r_cmd("continue"));
    h = Ref::hits_in(w.edge({{t + ".a", 1}, {t + ".b", 1}}));
    if (h.size() != 1 || h[0].line != 2) mc::fail("line 2 not hit");
}
''' + POST)
make("c02-last-statement", "C02", [("src/scheduler.cc", "            if (index != (bp_ordering_.size() - 1)) {\n", "            if ((index + 1) < (bp_ordering_.size() - 1)) {\n")],
 "stepping through a whole edge up to the very last statement of the execution order",
 "step-over never visits the last statement of the execution order",
 PRE + '''
static void body(size_t) {
    auto kit = design::kit1(1);
    World w;
    design::bench1(w, kit);
    bring_up(w, kit);
    must(w, world::r_cmd("step_over"));
    auto h = Ref::hits_in(w.edge({}));
    uint64_t last = 0;
    while (w.paused()) {
        last = h.at(0).scopes.at(0).bp_id;
        h = Ref::hits_in(w.send(1, world::r_cmd("step_over")));
    }
    if (last != kit.stmts.back().id) mc::fail("the last statement was not visited");
}
''' + POST)
make("c03-rewind-position", "C03", [("src/scheduler.cc", "                next_breakpoint_id = bp_ordering_.back();\n", "                next_breakpoint_id = bp_ordering_[bp_ordering_.size() > 1 ? bp_ordering_.size() - 2 : 0];\n")],
 "stepping back over the beginning of a clock edge on a simulator that supports rewinding",
 "after going back to the previous clock edge the last statement of that edge is skipped",
 PRE + '''
static void body(size_t) {
    auto kit = design::kit1(1);
    world::Cfg cfg;
    cfg.rewind = true;
    World w(cfg);
    design::bench1(w, kit);
    bring_up(w, kit);
    must(w, world::r_cmd("continue"));
    w.edge({});
    must(w, world::r_bp("add", "dut.py", 1));
    auto h = Ref::hits_in(w.edge({}));
    if (h.size() != 1 || h[0].scopes[0].bp_id != kit.stmts[0].id) {
        must(w, world::r_bp("remove", "dut.py", 1));
        must(w, world::r_cmd("step_back"));
        while (w.paused() && h[0].scopes[0].bp_id != kit.stmts[0].id) h = Ref::hits_in(w.send(1, world::r_cmd("step_back")));
    }
    h = Ref::hits_in(w.send(1, world::r_cmd("step_back")));
    if (h.size() != 1 || h[0].scopes[0].bp_id != kit.stmts.back().id) mc::fail("not at the last statement of the previous edge");
}
''' + POST)
make("c11-or-xor", "C11", [("src/eval.cc", "            if (ss == \">=\" || ss == \"<=\") {", "            if (ss == \">=\" || s.starts_with(\"<= \")) {") if False else ("src/eval.cc", "    [[maybe_unused]] static void apply0(ParserState& state) { state.push(Operator::BOr); }", "    template <typename ActionInput>\n    [[maybe_unused]] static void apply(const ActionInput& in, ParserState& state) {\n        state.push(in.string().find('^') == std::string::npos ? Operator::BOr : Operator::Xor);\n    }")],
 "an expression that mixes | with ^ inside the right operand of |, with values where or and xor differ",
 "a | whose right operand contains ^ is evaluated as ^",
 '''// build: plain
#include "eval.hh"
#include "explore.hh"
static size_t tops() { return 1; }
static void body(size_t) {
    hgdb::DebugExpression e("a | b ^ c");
    e.set_value("a", 3);
    e.set_value("b", 1);
    e.set_value("c", 0);
    if (!e.correct() || e.eval() != (3 | (1 ^ 0))) mc::fail("wrong value");
}
''' + POST)
