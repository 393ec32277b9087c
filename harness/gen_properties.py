#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property); run it to regenerate the file."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))
WS = "messages on the debugger's WebSocket connection"
VPI = "calls the debugger makes on the simulator's VPI"
SYM = "symbol table provider API (create_symbol_table, get_*)"

p("C01", "Forward run stops at exactly the right breakpoints, in execution order",
  "While the design runs forward, at every rising clock edge the simulation pauses at exactly those inserted breakpoints whose symbol-table enable condition and user condition are both non-zero for the signal values at that edge (and, where the statement has a trigger list, at least one listed signal changed since the statement was last evaluated or it is evaluated for the first time). The pauses come in the execution order of the statements, each inserted breakpoint is reported at most once per edge, and nothing else pauses the simulation. Instances of the same source location with the same enable condition that hit together may be reported in one pause.",
  ["inputs", "histories", "programs"], "all designs, condition/trigger combinations, signal-value histories and sets of inserted breakpoints",
  "The scheduler and debugger unit tests use a few fixed designs (and do not even build here); they sample a handful of conditions and never the product of enable/user/trigger conditions, instances, batching modes and value histories.",
  ["src/debug.cc", "src/scheduler.cc", "src/eval.cc"],
  [("evaluation loop", "debug.cc Debugger::eval / eval_breakpoint / should_trigger"), ("ordering and batching", "scheduler.cc next_normal_breakpoints / scan_breakpoints / reorder_breakpoints")],
  [WS, VPI], [("breakpoints_", "inserted breakpoints in execution order", "scheduler.hh")])

p("C02", "Step-over visits every enabled statement in order",
  "After step-over, the simulation pauses at the next statement, in execution order, whose enable condition holds with the current signal values, whether or not a breakpoint is set there and regardless of user conditions; when no statement is left in this clock edge, stepping carries on with the first enabled statement of the next edge. Continue after stepping returns to breakpoint-only behaviour.",
  ["inputs", "histories", "programs"], "all designs, enable-condition valuations, inserted breakpoint sets and command sequences",
  "Tests step through one small design; they do not cover disabled statements, edges with nothing enabled, duplicated IPs or mixing stepping with continue.",
  ["src/scheduler.cc", "src/debug.cc"],
  [("next_step_over_breakpoints / create_next_breakpoints", "scheduler.cc"), ("handle_command", "debug.cc")], [WS])

p("C03", "Reverse stepping goes back one enabled statement, never forward or stuck",
  "Step-back pauses at the closest preceding statement (in execution order) whose enable condition holds and reverse-continue at the closest preceding inserted breakpoint that hits; past the first statement of an edge both move to the previous clock edge when the simulator supports rewinding and otherwise stop at (or before the end of) the current edge's statements. They never skip a hit, never run forward past the current statement before having gone back, and never leave the simulator spinning without pausing or progressing.",
  ["inputs", "histories", "programs", "configurations"], "all designs, enable valuations, command sequences, with and without rewind support",
  "Existing tests only reverse through always-enabled statements with rewind support; with a disabled first statement or without rewind the behaviour is not sampled.",
  ["src/scheduler.cc", "src/rtl.cc", "src/debug.cc"],
  [("next_step_back_breakpoints / next_reverse_breakpoints", "scheduler.cc"), ("reverse_last_posedge", "rtl.cc")], [WS, VPI])

p("C04", "The inserted breakpoint set equals what the clients asked for",
  "After any sequence of add and remove requests (by location or by id), the set of active breakpoints - as reported by the breakpoint information request and as evident from the pauses - is exactly the one the accepted requests describe: every instance (in every mapped copy of the design) of an added location, none of a removed one, with the condition of the latest add. An add request for a location or id that does not exist, or with a condition that is malformed or resolvable in none of its instances, is answered with an error and changes nothing; removing what is not there changes nothing.",
  ["histories", "inputs"], "all sequences of add/remove requests over locations, columns, ids and conditions",
  "Tests add and remove one or two breakpoints; leftovers and stale conditions appear only for particular sequences and for several instances or copies.",
  ["src/debug.cc", "src/scheduler.cc", "src/db.cc"],
  [("handle_breakpoint / handle_breakpoint_id", "debug.cc"), ("add_breakpoint / remove_breakpoint", "scheduler.cc")], [WS])

p("C05", "A breakpoint report tells the truth about the paused design",
  "Every breakpoint-hit message carries the current simulation time, the source location of the statement, and for each hit instance its id, full hierarchical name, breakpoint id, namespace id and kind; its local variables and generator variables are exactly the ones the symbol table declares for that statement and instance, with the value the mapped RTL signal has at that moment (arrays flattened element by element, constants as their literal, unreadable signals as ERROR).",
  ["inputs", "programs", "histories"], "all symbol tables (variable kinds, scopes, arrays), values and value formats",
  "Tests check a few fields of one design.",
  ["src/debug.cc", "src/proto.cc", "src/rtl.cc", "src/db.cc"],
  [("send_breakpoint_hit", "debug.cc"), ("BreakPointResponse", "proto.cc"), ("resolve_rtl_variable", "rtl.cc")], [WS])

p("C06", "Each request gets exactly one reply, to its sender, with its token",
  "In every state of the debugger, each request message receives exactly one response, sent only to the connection that made it, which carries the request's token if it had one, names the request type, and reports success only if the request was carried out; a message that is not a valid request is answered with an error. Other clients receive nothing because of it.",
  ["inputs", "histories"], "all request kinds and shapes, in every debugger state (before/after connecting, running, paused, after stop)",
  "Tests send mostly well-formed requests in the expected state and rarely check tokens or the other connections.",
  ["src/debug.cc", "src/proto.cc", "src/server.cc"],
  [("on_message and the handle_* functions", "debug.cc"), ("Request::parse_request, GenericResponse", "proto.cc")], [WS])

p("C07", "No client message can crash or wedge the simulation",
  "Whatever message a client sends - malformed JSON, missing or wrongly typed fields, out-of-range numbers, unknown names, requests in the wrong state - the debugger neither terminates nor corrupts the simulator process, and the simulation can afterwards still be resumed and debugged as if the message had not been sent.",
  ["inputs", "histories"], "all message shapes (type/payload/field mutations of every request) in every debugger state",
  "Tests cover a few malformed requests; the product of request kind, field, mutation and debugger state is not sampled.",
  ["src/proto.cc", "src/debug.cc", "src/eval.cc"],
  [("request parsing and validation", "proto.cc parse_payload"), ("state checks", "debug.cc handle_*")], [WS, "process exit status"])

p("C08", "A paused simulation resumes exactly when told to, and always when told to",
  "When the debugger pauses the simulation (at start, at a hit, at a clock edge with that option on), it stays paused until a resume command (continue, step, reverse, jump), a stop, or a detach arrives, and then always resumes (a jump that fails included), whatever the interleaving of the simulation and server threads; a resume sent while paused is never lost and no resume releases more than one pause. After stop or detach nothing pauses the simulation any more.",
  ["schedules", "histories"], "all interleavings of the simulation thread's wait with the server thread's commands, stops and disconnects",
  "Unit tests run one interleaving with sleeps in between; lost wake-ups and double releases need a specific schedule.",
  ["src/thread.cc", "src/debug.cc"],
  [("RuntimeLock::wait/ready", "thread.cc"), ("handle_command, detach, stop", "debug.cc")], [WS, "return of the clock callback to the simulator"])

p("C09", "Requests during evaluation are atomic: no race, no dangling breakpoint",
  "Requests served while the simulation thread is evaluating breakpoints never race with that evaluation: there is no data race, no use of a removed breakpoint, no deadlock, and the observable result equals that of serving the request entirely before or entirely after a breakpoint evaluation step.",
  ["schedules"], "all interleavings (up to a preemption bound) of the simulation thread with a server thread serving each kind of request",
  "Tests never run requests concurrently with evaluation on purpose; a race needs a specific interleaving.",
  ["src/debug.cc", "src/scheduler.cc", "src/server.cc", "src/monitor.cc"],
  [("locks of the scheduler, debugger and server", "scheduler.cc, debug.cc, server.cc")], [WS, VPI])

p("C10", "Evaluating breakpoints in parallel gives the sequential result",
  "When many instances share a breakpoint location and the debugger evaluates them on several threads, every interleaving yields exactly the hits of sequential evaluation, without data races; the batching option does not change which instances hit, only how they are grouped into pauses.",
  ["schedules", "configurations"], "all interleavings of the evaluation threads; batch sizes around the threading threshold; single-thread option on/off",
  "Tests observe one schedule on the host and cannot see races.",
  ["src/debug.cc", "src/rtl.cc"], [("eval_breakpoints", "debug.cc"), ("handle caches", "rtl.cc")], [WS])

p("C11", "Condition expressions evaluate with the documented operators and precedence",
  "Every condition or expression accepted by the debugger evaluates, for every assignment of 64-bit values to its symbols, to the C-like result of its operators with C precedence and associativity, including bitwise, logical, comparison, arithmetic and unary operators, number formats and parentheses, and names exactly its free symbols; text outside the grammar is rejected as a whole. Evaluation never faults (division by zero included).",
  ["inputs"], "all expressions of the grammar up to a size, all operand values from a boundary set",
  "test_eval checks about thirty literal expressions; operator pairs, associativity and boundary operands are not covered.",
  ["src/eval.cc", "src/eval.hh"], [("PEG grammar and Expr::eval", "eval.cc")], ["DebugExpression", WS])

p("C12", "Names resolve in the requested scope, and errors are errors",
  "An evaluation request resolves each symbol in the scope of the given breakpoint, then of the given instance, then as a design path (names the symbol table declares in the scope take precedence over RTL names), in the mapped copy of the design the request refers to, and returns the value of the expression over those signals; $time and $instance denote the simulation time and the instance. If the expression is invalid or any symbol cannot be resolved it returns an error, never a value.",
  ["inputs", "configurations"], "all scope forms, symbols shadowing each other at different scopes, namespaces",
  "Tests evaluate a few names with one scope each.",
  ["src/debug.cc", "src/scheduler.cc", "src/db.cc"], [("handle_evaluation, get_namespace", "debug.cc"), ("validate_expr", "scheduler.cc")], [WS])

p("C13", "Monitors deliver exactly the subscribed values",
  "A monitored variable is reported with its current value at every clock edge (clock-edge monitors), at every pause (breakpoint monitors), or at the end of every clock edge's evaluation at which its value differs from the last reported one (changed monitors; the first edge reports), under the track id returned when it was added, from the add until the remove and not otherwise; adding the same variable and kind again yields the same id, and removing one monitor does not affect others.",
  ["histories", "inputs"], "all sequences of monitor add/remove over variables and kinds, value histories",
  "Tests monitor one or two variables for one or two edges.",
  ["src/monitor.cc", "src/debug.cc"], [("Monitor", "monitor.cc"), ("send_monitor_values, handle_monitor", "debug.cc")], [WS, "Monitor API"])

p("C14", "Data breakpoints hit exactly when the watched variable changes at an assignment",
  "After a data breakpoint is added for a variable, the simulation pauses at a statement that assigns it exactly when that statement's condition (and the request's condition) holds and the watched value differs from the value last seen at such a statement; info checks validity without inserting anything; remove and clear take away exactly the data breakpoints concerned and leave normal breakpoints intact.",
  ["histories", "inputs"], "all sequences of data breakpoint add/info/remove/clear mixed with normal breakpoints; value histories",
  "Tests add one data breakpoint; the interplay with normal breakpoints on the same statement and repeated adds/removes is not covered.",
  ["src/debug.cc", "src/scheduler.cc", "src/monitor.cc"], [("handle_data_breakpoint", "debug.cc"), ("add_data_breakpoint/remove/clear", "scheduler.cc"), ("var_changed", "monitor.cc")], [WS])

p("C15", "Delayed variables show the value from the stated number of cycles ago",
  "A context variable declared as delayed by N cycles is reported at a hit, while the simulation runs forward, with the value its signal had N clock edges earlier (once it has been tracked that long), never the current or a later value, and its presence never disturbs the debugger, whatever breakpoints are added or removed meanwhile.",
  ["histories", "inputs"], "all delays up to a bound, value histories, and breakpoint add/remove sequences",
  "Tests use a single depth-1 variable.",
  ["src/debug.cc", "src/monitor.cc"], [("process_delayed_breakpoint, update_delayed_values", "debug.cc"), ("WatchVariableBuffer", "monitor.cc")], [WS, "Monitor API"])

p("C16", "Symbol table queries return what the symbol table file says",
  "For every valid JSON symbol table, each query - breakpoints by file, line and column or id, execution order, instances and names, local/generator variables visible at a statement, scoped name resolution, assignments of a variable, file names, attributes, constants - returns exactly the elements the file declares for that scope, with scoping, shadowing, instance hierarchy and enclosing conditions honoured; the execution order lists every statement of every instance exactly once, in program order within a block.",
  ["inputs", "programs"], "all symbol tables up to a size over scopes, blocks, declarations, assignments, instances",
  "test_db loads a few example files.",
  ["src/db.cc", "src/symbol.cc"], [("JSONSymbolTableProvider", "db.cc")], [SYM])

p("C17", "A malformed symbol table is rejected whole and harmlessly",
  "A file that is not a valid symbol table (not JSON, nested too deeply, violating the schema, dangling or cyclic references, missing or duplicate modules) is reported as an error when loaded, never crashes or hangs the loader, and leaves the debugger usable: connecting with it fails with an error reply and a later valid connection works.",
  ["inputs", "fault_sequences"], "all single-point mutations and truncations of symbol table files",
  "Tests load one or two invalid files.",
  ["src/db.cc", "src/symbol.cc", "src/debug.cc"], [("JSONSymbolTableProvider::parse", "db.cc"), ("initialize_db", "debug.cc")], [SYM, WS])

p("C18", "A remote symbol table answers like the local one",
  "A debugger using a symbol table served over the network obtains, for every query, the same answer as from the table loaded locally: request and response messages round-trip without loss, and a broken or lost connection yields empty answers rather than a crash.",
  ["inputs", "fault_sequences"], "all query kinds, arguments and response shapes, malformed responses",
  "test_symbol_rpc covers a few queries on one table.",
  ["src/symbol.cc", "src/proto.cc"], [("NetworkSymbolTableProvider", "symbol.cc"), ("SymbolRequest/SymbolResponse", "proto.cc")], ["network symbol provider queries"])

p("C19", "Source path mapping is consistent in both directions",
  "With a path mapping set (on connection or later), locations given by the client under its own path are found as if given under the symbol table's path, and every file name sent to the client is mapped back; only whole leading path components are replaced, the longest matching mapping wins, an empty prefix stands for relative names, and unrelated paths are left alone.",
  ["inputs", "configurations"], "all mappings and file names over a small path alphabet",
  "Tests use one mapping and one path.",
  ["src/symbol.cc", "src/util.cc"], [("set_src_mapping, resolve_filename_to_*", "symbol.cc")], [WS, SYM])

p("C20", "Every copy of the design in the test bench is found and kept apart",
  "However the design under debug is instantiated in the simulated hierarchy (any depth and several times in simulators that give definition names, once below the root in those that do not), each copy gets its own namespace with the right prefix, symbol-table names translate to exactly that copy's full names and back, and values, breakpoints and reports never mix copies.",
  ["programs", "configurations"], "all small hierarchies and placements of one or two tops",
  "Tests use two or three fixed hierarchies.",
  ["src/rtl.cc", "src/namespace.cc", "src/debug.cc"], [("compute_hierarchy_name_prefix, get_full_name", "rtl.cc"), ("DebuggerNamespaceManager", "namespace.cc")], [WS, VPI])

p("C21", "Signal values, slices and array elements are read exactly",
  "Reading a signal, a bit or part select [hi:lo], or an array element through the debugger yields exactly that part of the simulator's value, in integer form (as the simulator's 32-bit integer, for values of up to 32 bits) and hexadecimal form (zero padded to the width, every width), for every index; names outside the design or out of range are reported as not available instead of yielding a value.",
  ["inputs"], "all slice bounds, widths, index forms and boundary values",
  "Tests read two slices and a small array.",
  ["src/rtl.cc", "src/debug.cc"], [("get_handle, get_value, get_str_value, get_slice", "rtl.cc"), ("value_to_str", "debug.cc")], ["RTLSimulatorClient API", WS])

p("C22", "Set-value writes exactly the named signal or fails",
  "A set-value request writes the given value to exactly the signal the name denotes in the given scope and copy of the design, is visible to every later read, report and condition (caches included), and otherwise is answered with an error and changes nothing.",
  ["inputs", "histories"], "all name scopes, values, and interleavings with reads and hits",
  "Tests set one signal.",
  ["src/debug.cc", "src/rtl.cc"], [("handle_set_value", "debug.cc"), ("set_value", "rtl.cc")], [WS, VPI])

p("C23", "Connecting again behaves like connecting the first time",
  "After any history of successful and failed connection requests, the debugger's state is that of the last successful one: breakpoints, namespaces, clock callbacks and symbol table belong to that connection only, no pause is lost or duplicated, and a failed connection is reported and leaves the simulation able to run.",
  ["histories", "fault_sequences"], "all sequences of connection requests with good, bad and different symbol tables, mixed with breakpoints and edges",
  "Tests connect once per debugger.",
  ["src/debug.cc", "src/namespace.cc"], [("handle_connection, initialize_db, add_cb_clocks", "debug.cc"), ("compute_instance_mapping", "namespace.cc")], [WS, VPI])

p("C24", "Options take effect exactly as set",
  "Setting an option changes exactly that option, the information request reports the value in force, unknown names or wrong types change nothing, and each option has its documented effect (batching, hex values, pause at clock edge, detach on disconnect, signal cache never showing a value of another edge).",
  ["histories", "configurations"], "all option settings and orders, combined with hits",
  "Tests toggle two options once.",
  ["src/util.cc", "src/debug.cc"], [("util::Options, handle_option_change, get_options", "debug.cc, util.cc")], [WS])

p("C25", "Events reach every connected client; disconnects are clean",
  "Every pause and monitor event is sent to every client connected at that moment and to no other; connections and disconnections in any order never crash the server or misroute later messages, and when the last client leaves with detach enabled the simulation is released and runs on undisturbed.",
  ["histories", "schedules"], "all sequences of open/close/request/edge over several clients",
  "Tests use one or two clients that stay connected.",
  ["src/server.cc", "src/debug.cc"], [("DebugServer connection table", "server.cc"), ("detach", "debug.cc")], [WS])

p("C26", "The VCD reader reports the file's contents faithfully",
  "Parsing a value change dump delivers every module, variable and value change exactly once, in file order, with the right identifiers, parents, widths, times and values; malformed input is reported as an error rather than crashing or hanging.",
  ["inputs"], "all token sequences of small VCD files, truncations at every byte",
  "Tests parse a few sample files.",
  ["tools/vcd/vcd.cc", "tools/vcd/vcd.hh"], [("VCDParser", "tools/vcd/vcd.cc")], ["VCDParser callbacks"])

p("C27", "Protocol messages survive encoding and decoding",
  "For every well-formed request and response, decoding its encoded text yields a message equal in every field, the encoded text is valid JSON with the documented structure whatever characters (other than NUL) names contain, and pretty printing changes only white space.",
  ["inputs"], "all message kinds with every combination of optional fields and boundary field values",
  "test_proto decodes a few literal strings.",
  ["src/proto.cc", "src/proto.hh"], [("Request/Response str and parse_payload", "proto.cc")], [WS, "Request::parse_request, Request/Response::str"])

p("C28", "The debugger hooks into the simulator's life cycle correctly",
  "Registered with a simulator, the debugger starts at start of simulation, is stopped and freed at its end, evaluates on every rising edge of the design's clocks (every time step for Verilator) and only then, and removes its callbacks when it detaches.",
  ["histories", "configurations"], "all simulators kinds (product names), clock sets, edge/value sequences",
  "test_sim checks registration only.",
  ["src/sim.cc", "src/rtl.cc", "src/debug.cc"], [("initialize_hgdb_runtime_vpi", "sim.cc"), ("add_cb_clocks, monitor_signals", "debug.cc, rtl.cc")], [VPI])

p("C29", "A failing design assertion pauses at its source line once",
  "When the design calls the debugger's assertion task for a known source location in a mapped copy, the simulation, when running forward, pauses at that statement at the next clock edge's evaluation, once, with that copy's values, unconditionally and without disturbing breakpoints set by users; calls with unknown locations or copies change nothing.",
  ["histories", "inputs"], "all assertion call arguments and interleavings with breakpoints and edges",
  "No test covers it end to end.",
  ["src/debug.cc", "src/scheduler.cc", "src/rtl.cc"], [("handle_assert", "debug.cc"), ("add_assert_breakpoint, remove_assert_breakpoints", "scheduler.cc")], [WS, VPI])

p("C30", "Environment and command-line settings have the effect of the requests",
  "Breakpoints, symbol table, port, logging and blocking settings given by environment variables or plus-args act exactly like the corresponding requests; malformed values are reported and ignored without affecting the others.",
  ["configurations", "inputs"], "all combinations of (well- and malformed) settings",
  "Tests set one variable.",
  ["src/debug.cc", "src/util.cc"], [("setup_init_breakpoint_from_env, preload_db_from_env, get_port, get_value_plus_arg", "debug.cc")], [WS, "environment, simulator arguments"])

p("C31", "Symbol tables written by the generator library load back identically",
  "Every symbol table built with the C++ generator library, compressed or not, serialises to a file that the debugger accepts and whose queries return exactly the modules, instances, scopes, variables, conditions, locations and attributes that were put in (file names being those of block scopes), whatever characters names and conditions contain.",
  ["programs", "inputs"], "all tables buildable with the library up to a size",
  "test_cxx builds two tables and compares strings.",
  ["include/json.hh", "src/db.cc"], [("JSONWriter, SymbolTable::output, compress", "include/json.hh")], ["generator library output", SYM])

p("C32", "SQLite symbol tables answer exactly what was stored in them",
  "For every SQLite symbol table, each query (breakpoints by location and id, instances, files, variables of statements and instances with their full names, annotations, assignments of a variable within a scope, execution order) returns exactly the stored rows that it asks for, and debugging with such a table, whose statements may have enable conditions and trigger lists, pauses at exactly the statements and in the order the table describes.",
  ["programs", "inputs"], "all sets of rows up to a size; all location sets, trigger lists and signal histories of a design",
  "test_db stores one small table per query; its tests need sqlite_orm and are not among the runnable ones.",
  ["src/db.cc", "src/scheduler.cc"], [("DBSymbolTableProvider", "src/db.cc"), ("store_*", "include/schema.hh")], [SYM, WS])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 3, x["id"]
        f.write(json.dumps(x) + "\n")
