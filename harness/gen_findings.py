#!/usr/bin/env python3
"""known_findings.txt from the fix commits in /repo (run by hand)."""
import subprocess
FIXES = [
 ("fix: expression evaluation no longer raises SIGFPE", "C11", "x / 0, x % 0 and INT64_MIN / -1 in a condition or evaluation end the simulator with SIGFPE"),
 ("fix: breakpoint scheduling keeps its position", "C01 C02 C03", "inserting or stepping while paused skips or repeats statements; reverse-continue runs forward or spins"),
 ("fix: normal, data and assertion breakpoints", "C04 C14 C29", "adding or removing one kind of breakpoint at a statement overwrites or removes the other kinds there"),
 ("fix: conditions are combined as a whole", "C01 C14 C16", "a condition 'a || b' combined with an enable condition 'c' is evaluated as 'c && a || b'"),
 ("fix: every request is answered in every state", "C06 C07 C04 C12", "requests before a connection, in the wrong state or with unknown ids get no reply, two replies, or dereference null"),
 ("fix: a new connection replaces everything", "C23 C17", "breakpoints, namespaces and callbacks of an earlier connection survive a new one; a failed connection drops the old one halfway"),
 ("fix: requests and breakpoint evaluation do not race", "C08 C09 C10 C25", "requests served during an evaluation race with it (breakpoints freed while in use, lost wake-ups)"),
 ("fix: an assertion pauses in the instance", "C29", "a failing assertion pauses in another instance than the one calling"),
 ("fix: monitors of changed values", "C13", "changed monitors are never delivered"),
 ("fix: cached signal values belong", "C24 C22", "with use_signal_cache values of earlier edges, or before a set-value, are reported"),
 ("fix: delayed variables are tracked", "C15", "two copies or two delays of one signal share one history"),
 ("fix: $instance of a breakpoint scope", "C12", "$instance evaluates to the breakpoint's position instead of the instance"),
 ("fix: malformed requests are rejected", "C06 C07 C18 C27", "wrongly typed members crash or are taken as defaults; symbol messages lose fields"),
 ("fix: names that denote no signal", "C21 C05 C22 C12 C24", "slices and indices out of range read out of bounds or yield values; modules have values"),
 ("fix: path mapping replaces whole", "C19", "/a mapped also in /ab; shorter mapping wins; names sent to the client not mapped back"),
 ("fix: scoped names are matched by component", "C12 C16 C18", "scoped name a.b matches instance xa.b; a lost remote symbol table ends the process"),
 ("fix: malformed symbol tables are rejected", "C16 C17", "dangling or cyclic references and missing members crash the loader or load partially"),
 ("fix: strings in generated symbol tables", "C31", "quotes, backslashes and control characters are written unescaped"),
 ("fix: the stop request is answered", "C06 C25", "the stop request's connection is closed before its reply is sent"),
 ("fix: malformed port numbers", "C30", "DEBUG_PORT=abc ends the simulator; +DEBUG_PORTX counts as +DEBUG_PORT"),
 ("fix: a slice of nothing", "C21 C07", "evaluating nosuch[1:0] dereferences a null handle"),
 ("fix: reported variables are read", "C05 C16 C20 C15", "array and indexed variables are read from the first copy's signals or by the wrong names"),
 ("fix: the VCD reader reports every value change", "C26", "value changes of some forms are dropped, malformed dumps accepted or looped on"),
 ("fix: an instance without name", "C18", "remote and local symbol tables disagree about an unknown instance"),
 ("fix: members of a structure are read", "C05", "structure members are reported under the name of the last one read"),
 ("fix: removing a monitor", "C14 C13", "monitor remove with the watch id of a data breakpoint silences the data breakpoint"),
 ("fix: the namespaces are not read", "C08 C09", "start-up reads the namespaces while a connection request served meanwhile adds to them"),
 ("fix: a command received earlier does not end a clock edge", "C08 C24", "a resume command sent while the simulation runs makes the next pause_at_posedge pause be skipped"),
 ("fix: values that do not fit", "C22", "set-value of 4294967296 reports success and writes 0"),
 ("fix: an assertion that fails in consecutive cycles", "C29", "an assertion that failed in one cycle is not reported when it fails again before the next"),
 ("fix: settings given as plus-args with a value", "C30", "+DEBUG_LOG=1, as documented, does not switch logging on"),
 ("fix: breakpoints from the environment without a column", "C30", "a breakpoint variable without a column takes whatever column is on the stack, so it may be refused or set elsewhere"),
 ("fix: a SQLite breakpoint looked up by id", "C32", "get_breakpoint(id) of a SQLite table drops the trigger, so a breakpoint set by id pauses every time"),
 ("fix: SQLite variables whose RTL name", "C32", "a variable named stop of instance top is taken for a full name because the instance name occurs in it"),
 ("fix: SQLite assignments are looked up", "C32", "the scope of a single assignment is ignored, members of another variable are matched, and a name without a first component ends the process"),
 ("fix: assertions skipped by stepping", "C29", "an assertion skipped because of stepping pauses again at a later clock cycle although it did not fail there"),
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()]
used = set()
out = ["# known findings: one line each, 'known: property=<id> <signature> <what fails>' or",
       "# 'fixed: property=<id> <commit> <what failed>' (a fixed line suppresses nothing)"]
for h, s in log:
    if not s.startswith("fix:"): continue
    m = [f for f in FIXES if s.startswith(f[0])]
    assert len(m) == 1, (s, m)
    used.add(m[0][0])
    for p in m[0][1].split(): out.append(f"fixed: property={p} {h} {m[0][2]}")
assert len(used) == len(FIXES)
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
