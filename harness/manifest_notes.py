NOTES = {
 "C08": ("stateless model checking of the real debugger: simulator, server and client threads under a controlled scheduler, all schedules up to a preemption bound, with a happens-before race detector",
         "24 scenarios (resumes, stray commands, stop, detach, options, start and end of the simulation) with 1 or 2 copies; preemption at every lock, wait, signal, thread operation and atomic access, at most 1 or 2 preemptions (2 or 3 thorough); unsynchronised accesses are reported as races instead of being interleaved."),
 "C09": ("stateless model checking of the real debugger: every schedule up to a preemption bound of requests against the evaluation of clock edges, compared with every sequential placement of the requests; happens-before race detection and use-after-free detection",
         "48 request scenarios (every kind of request, pairs of requests, connecting and disconnecting) with 1 or 2 copies over two edges; at most 1 preemption (2 thorough)."),
 "C10": ("stateless model checking of the two evaluation threads: every schedule up to a preemption bound, compared with single-threaded evaluation and the reference; happens-before race detection",
         "33 to 40 instances at one location, 8 patterns of hits, user conditions, value cache, batching off, data breakpoints; one preemption at any lock or atomic access."),
 "C11": ("exhaustive enumeration of expression texts vs. an independent parser/evaluator",
         "All token sequences up to 4 tokens (5 thorough), all character strings over the name/literal alphabet up to 5 (6), all combinations of 3 binary operators with unary operators and parentheses, each evaluated over a boundary set of 64-bit values; longer expressions are outside the bound."),
 "C01": ("explicit-state exploration of the real debugger in a simulated test bench vs. a reference scheduler",
         "One design (8 statements, nested conditions, two child instances), 1 or 2 copies, batching on and off, every subset of the 6 locations, 4 user-condition assignments, every assignment of the condition signals at consecutive edges; every pause compared. Then statements with trigger lists (three lists, six subsets), and a second design whose locations differ only in the file or the column (every subset of its 7 statements)."),
 "C02": ("explicit-state exploration of command sequences on the real debugger vs. a reference scheduler",
         "All continue/step-over sequences up to the stated depth from every signal assignment and breakpoint sets, 1 or 2 copies; in a second design with similar locations as well."),
 "C03": ("explicit-state exploration of command sequences on the real debugger, with and without simulator rewind, vs. a reference scheduler",
         "All sequences of the four resume commands up to the stated depth over three edges, in two designs; a call budget turns spinning into a violation."),
 "C16": ("exhaustive enumeration of symbol tables built from a grammar of scope trees, every query compared with an independent reference reading of the file",
         "Bounded scope trees (declarations, assignments, blocks, conditions, arrays, nested instances); every breakpoint, instance, scope, name and assignment query of each table compared."),
 "C17": ("exhaustive enumeration of mutations of valid symbol tables, each loaded by the real loader and the real debugger under AddressSanitizer",
         "Every single removal/replacement of every JSON value by each of a set of other values, every truncation, reference cycles, nesting; compared with an independent validity oracle; two mutations at once in the thorough tier."),
 "C19": ("exhaustive enumeration of mapping sets and paths vs. a reference path mapper",
         "All mapping sets of up to 2 (3) entries over a component alphabet and all paths of up to 3 components, both directions, on connection and later."),
 "C21": ("exhaustive enumeration of signals, slices and indices of simulated designs vs. an independent reading of the simulated value",
         "All widths up to the bound with boundary bit patterns, every slice [hi:lo] in and out of range, every array index including malformed ones."),
 "C27": ("exhaustive enumeration of request and response messages over value alphabets, encoded and decoded by the real code under AddressSanitizer",
         "All combinations of field values from an alphabet with control, quote, backslash and non-ASCII characters; single-member mutations of every request."),
 "C18": ("exhaustive enumeration of histories of requests against remote symbol tables: contents, byte-stream fragmentations, and every fault at every request",
         "TCP at the level of the process's socket calls, websocket through the in-process transport; every read/write size up to 300 bytes, every fault kind at every request of a fixed history of all queries."),
 "C26": ("exhaustive enumeration of token sequences of VCD declarations and value changes, layouts, truncations and mutations vs. an independent reader, under AddressSanitizer",
         "All sequences of up to 3 (4) declarations, 6 (7) raw header words, 4 (5) value-change words; every truncation and single-token or -character change of four whole files."),
 "C31": ("exhaustive enumeration of symbol tables built with the generator library, loaded by the debugger and compared query by query with a reference reading of what was put in",
         "Bounded scope trees, hierarchies over four modules, all single-byte characters in every text, compressed, compressed twice or not, reordering on or off."),
 "C32": ("exhaustive enumeration of the contents of SQLite symbol tables, every query compared with the stored rows; exhaustive sessions of the real debugger on such a table vs. a reference scheduler",
         "All subsets of seven breakpoints, eight variables and all assignments of five statements, over absolute, relative and mapped file names, with and without scopes; sessions over 336 combinations of location sets, trigger lists, order, copies and modes with every change between 12 (24) valuations. sqlite_orm is replaced by an in-memory stand-in with its query semantics, so SQL and file storage are not covered."),
 "C04": ("explicit-state exploration of histories of breakpoint requests on the real debugger vs. a reference set of breakpoints",
         "All sequences of 28 add/remove requests (by location, column, id; valid, malformed and unresolvable conditions) up to depth 3 (4), in four situations (before start, between edges, paused, paused in a later statement), 1 or 2 copies; set reported and pauses compared after each."),
 "C05": ("exhaustive enumeration of sets of declared variables of a paused design, reports compared with an independent reading of symbol table and simulated signals",
         "All ordered triples of 15 kinds of variables (arrays, matrices, structures, modules, constants, missing signals, child and absolute paths), local or generator, nested or flat, hex or decimal, values changed while paused."),
 "C12": ("exhaustive enumeration of evaluation requests over names, scopes, copies and debugger states vs. an independent name resolver",
         "41 symbols in 8 expression forms, all breakpoint/instance/namespace scopes incl. unknown ones, 4 states; names whose meaning the documentation leaves open are accepted either way (listed in DESIGN.md)."),
 "C20": ("exhaustive enumeration of simulated hierarchies vs. an independent search for the copies of the design",
         "All hierarchies of up to 5 (6) modules, three naming styles, one or two design definitions, with and without definition names; design information, evaluation, set-value and reports per copy."),
 "C22": ("exhaustive enumeration of set-value requests over names, scopes, copies, values and debugger states vs. an independent name resolver and snapshots of all signals; explicit-state exploration of writes at pauses vs. a reference scheduler",
         "45 names x 12 values x 19 scopes x namespaces x 5 states x 1 or 2 copies; all placements of up to 2 (3) writes at the pauses of two edges with the signal cache on or off."),
 "C13": ("explicit-state exploration of histories of monitor requests, edges and pauses on the real debugger vs. a reference set of monitors",
         "All sequences of add/remove requests (clock-edge, changed and breakpoint monitors, several scopes and copies) interleaved with edges of every signal assignment up to the bound; every monitor message compared."),
 "C14": ("explicit-state exploration of histories of data-breakpoint requests and edges on the real debugger vs. a reference set of data breakpoints",
         "All sequences of add/remove/clear requests over variables, instances, copies, conditions up to the bound, interleaved with edges of every assignment of the watched signals; reported set and every pause compared."),
 "C15": ("exhaustive enumeration of tables with delayed variables, breakpoint placements and signal histories, reports compared with the recorded history of the simulated signals, under AddressSanitizer",
         "Slots of delays over scalars, arrays, copies; every history of values over the bound of edges, breakpoints added at every point."),
 "C23": ("explicit-state exploration of histories of connection requests, breakpoints, monitors and edges on the real debugger vs. a reference scheduler for the last successful connection",
         "All sequences of successful and failed connections (two designs with different clocks, unreadable and malformed tables) up to the bound, at the start, between edges and at pauses."),
 "C24": ("exhaustive enumeration of sequences of option requests vs. the reported options; explicit-state exploration of placements of option changes in sessions vs. a reference scheduler",
         "All pairs (triples) of 49 option requests on two simulators; all placements of one (three) option changes at the pauses of two (three) edges, all initial settings, 1 or 2 copies, with and without rewind; all disconnects."),
 "C06": ("exhaustive enumeration of requests that differ from a well-formed one in one place, of truncated texts and of sequences of requests, in every state of the debugger; replies, addressees, tokens and status checked",
         "29 well-formed requests; every member removed or set to each of 32 values, every truncation, every change of what is around the payload; all pairs (triples) of well-formed requests; 8 states, 1 or 2 copies."),
 "C07": ("exhaustive enumeration of one (two) altered messages in every state of the debugger under AddressSanitizer; the rest of the session compared with one without the message",
         "The messages of C06 plus pairs of texts that are no requests, 8 states; the session afterwards has two edges with breakpoints, monitors and a data breakpoint; a hung simulation is a violation."),
 "C25": ("explicit-state exploration of histories of connections, disconnections, edges, commands, requests and option changes of several clients on the real debugger; addressees of every message checked",
         "All sequences up to 6 (7) steps with at most three clients at a time, with and without a breakpoint, detaching on or off; interleavings of disconnections with the evaluation are explored by C08 and C09."),
 "C28": ("explicit-state exploration of histories of simulator events on the registration code and the real debugger: callbacks held by the simulator, evaluations, release at the end, under AddressSanitizer",
         "5 simulators, own or system interface, started at once or by the simulator, 1 or 2 copies, 5 clock arrangements; all sequences of clock changes, other changes, time steps, connections and detaching up to depth 3 (5), then the end."),
 "C29": ("explicit-state exploration of histories of assertion calls, user breakpoints and edges on the real debugger vs. a reference of what has to be reported",
         "18 kinds of calls (known and unknown locations, copies, instances, arguments), one or two before each of 2 (3) edges, 5 user breakpoints that stay or are removed, 1 or 2 copies; forward running only."),
 "C30": ("exhaustive enumeration of environment variables and plus-args; the session compared message by message with one that gets the same by requests",
         "All lists of up to 2 (3) breakpoint variables out of 23 texts with 6 ways of loading the table; 11 x 11 port texts with all ways of giving the blocking, logging and counting flags."),
}
NA = {}
