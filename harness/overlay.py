"""overlay.py REPO OUT: writes OUT/include/schema.hh, OUT/src/db.cc and so on (see the end).

sqlite_orm is not available here, and these files use it in one part each (the SQLite symbol table).
Each output is the file in REPO as it is now, with the sqlite_orm include dropped and that part put
between #if 0 and #endif. Line numbers are kept, nothing is added in place of what is left out.
A file that has lost the markers looked for is an error. Outputs are rewritten only when they change."""

import os
import sys

repo, out = sys.argv[1:]


def cut(source, start, end, drop=()):
    """Leaves out the lines from the one that starts with start to a line that is end[1:]: the next
    one and including it (end[0] "="), the next one not included (">"), the last one not included
    ("<")."""
    path = os.path.join(repo, source)
    with open(path) as f:
        lines = f.read().split("\n")
    first = [i for i, line in enumerate(lines) if line.startswith(start)]
    if len(first) != 1:
        sys.exit("%s: expected one line starting with %r, found %d" % (path, start, len(first)))
    first = first[0]
    ends = [i for i, line in enumerate(lines) if line == end[1:] and i > first]
    if not ends:
        sys.exit("%s: no line %r after line %d" % (path, end[1:], first + 1))
    last = {"=": ends[0] + 1, ">": ends[0], "<": ends[-1]}[end[0]]
    lines = ["" if line in drop else line for line in lines]
    text = "\n".join(
        ['#line 1 "%s"' % path]
        + lines[:first]
        + ["#if 0  // needs sqlite_orm", '#line %d "%s"' % (first + 1, path)]
        + lines[first:last]
        + ["#endif", '#line %d "%s"' % (last + 1, path)]
        + lines[last:]
    )
    target = os.path.join(out, source)
    os.makedirs(os.path.dirname(target), exist_ok=True)
    try:
        with open(target) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(target, "w") as f:
        f.write(text)


cut(
    "include/schema.hh",
    "auto inline init_debug_db(",
    "<}  // namespace hgdb",
    drop=['#include "sqlite_orm/sqlite_orm.h"'],
)
cut("src/db.hh", "class DBSymbolTableProvider ", "=};")
cut("src/db.cc", "DBSymbolTableProvider::DBSymbolTableProvider(const ", ">namespace db::json {")
cut("src/symbol.cc", "            case FileType::SQLite: {", "=            }")
cut("tests/test_util.hh", "class DBTestHelper ", "=};")
cut("tests/test_db.cc", "class DBTest ", ">TEST(JSON_DB, validate) {  // NOLINT")
