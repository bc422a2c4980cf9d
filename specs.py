"""What is run for each property."""

SLICES = 8

INC = []
VARIANTS = {
    # -O0 for the instantiations keeps the quick checks quick
    "plain": dict(cxx=["clang++", "-fbracket-depth=1024"], lib=["-O0"], scen=["-O0"]),
    "fast": dict(cxx=["clang++", "-fbracket-depth=1024"], lib=["-O2"], scen=["-O2"]),
    "gcc": dict(cxx=["g++"], lib=["-O2"], scen=["-O1"]),
    "asan": dict(cxx=["clang++", "-fbracket-depth=1024"],
                 lib=["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                 scen=["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "asan-o2": dict(cxx=["clang++", "-fbracket-depth=1024"],
                    lib=["-O2", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                    scen=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
}

# assertions of the standard library: indices, iterators, empty optionals, capacity of vectors
ASSERTIONS = ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
for _v in ("asan", "asan-o2"):
    for _k in ("lib", "scen"):
        VARIANTS[_v][_k] += ASSERTIONS
MEMCHECK = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS["memcheck"] = dict(cxx=["clang++", "-fbracket-depth=1024"], lib=MEMCHECK, scen=MEMCHECK,
                            prefix=["valgrind", "-q", "--vgdb=no", "--error-exitcode=77", "--exit-on-first-error=yes",
                                    "--leak-check=full", "--show-leak-kinds=definite", "--num-callers=16"])

TSAN = ["-O1", "-g1", "-fsanitize=thread"]
VARIANTS["tsan"] = dict(cxx=["clang++", "-fbracket-depth=1024"], lib=TSAN, scen=TSAN)

_WRAPPED = ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strncmp", "strchr", "strstr",
            "strrchr", "strnlen", "strcmp", "strspn", "strcspn", "memrchr", "memmem", "realloc")
_WORK = ["-O1", "-fsanitize-coverage=trace-pc"]
VARIANTS["work"] = dict(cxx=["clang++", "-fbracket-depth=1024"], lib=_WORK, scen=_WORK,
                        link=["-Wl," + ",".join("--wrap=" + f for f in _WRAPPED)])

MODEL_RULE = ("seeded random documents and call sequences over 40 setups x 3 error modes x file/buffer x "
              "29 delimiters, executed on the library and compared with an independent reference model; ")

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


# workloads which several checks run as a part of theirs
check("HUGE-POSITIONS", helper=True, src=["huge.cpp"], flags=["-DCHECK_POSITIONS"], cpu_limit=300)
check("HUGE-ROWS", helper=True, src=["huge.cpp"], flags=["-DCHECK_ROWS"], cpu_limit=300)


MODEL_NOTE = ("Held on the executed cases only (counts in the evidence file); trusts the reference model in "
              "h/model.hpp, which shares no code with the library. ")

check("C02", technique="runtime monitoring: reference-model oracle over generated rows",
      note=MODEL_NOTE + "Encodings are legal by construction, and the model has to agree with the construction.",
      src=["c02.cpp"], setups=True,
      quick=[("plain", 60000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 300000, 3)],
      need={"rows": 1000, "delimiter inside value": 500, "quote inside value": 500, "multiline rows": 200},
      rule=MODEL_RULE + "a case is a document of rows written by construction in a random legal encoding; "
      "non-trivial: distinct (setup, delimiter, document) with at least one row decoded and compared",
      assumptions=["delimiters do not share characters with quote, escape and trim characters",
                   "no NUL bytes in the data"])

check("C03", technique="runtime monitoring: outcome and isolation oracle over interleaved bad and good rows",
      note=MODEL_NOTE + "In the isolation workload the kind of every row is known by construction.",
      src=["c03.cpp"], setups=True,
      quick=[("plain", 150000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 300000, 3)],
      need={"good rows after malformed rows": 3000, "malformed:mismatched-quote": 1000, "malformed rows with selected columns": 5000,
            "malformed:unterminated-quote": 300, "malformed:unterminated-escape": 300, "rejected lines": 1000},
      rule=MODEL_RULE + "documents interleave well-formed rows with rows made malformed in a known way, or are "
      "damaged/hostile character soups; non-trivial: distinct (setup, delimiter, document) fully compared",
      assumptions=["delimiters do not share characters with quote, escape and trim characters",
                   "no NUL bytes in the data"])

check("C04", technique="runtime monitoring: exactly-once/in-order oracle over self-identifying rows",
      note="Held on the executed documents; rows carry their index and position-dependent bytes so that loss, "
      "duplication, reordering, truncation or a shifted byte is visible.",
      src=["c04.cpp"], setups=True,
      quick=[("plain", 6000, 0), ("fast", 100, 0, "HUGE-ROWS")],
      thorough=[("fast", 200000, 1), ("gcc", 60000, 2), ("asan-o2", 20000, 3), ("fast", 100, 0, "HUGE-ROWS")],
      need={"rows": 50000, "lengths around 128": 800, "lengths above 4000": 300,
            "last rows without a line break": 500, "rows with carriage returns": 300},
      rule="documents of 1-12 rows whose lengths are drawn around 64, 128, ... 65536 bytes, plus documents of "
      "thousands of rows, with LF, CRLF and mixed line breaks, read from files and exact-size buffers; every row is "
      "generated from its index; non-trivial: distinct documents read to the end")

check("C05", technique="runtime monitoring: construction and reference-model oracle over multiline documents",
      note=MODEL_NOTE,
      src=["c05.cpp"], setups=True,
      quick=[("plain", 100000, 0)],
      thorough=[("fast", 2500000, 1), ("gcc", 800000, 2), ("asan-o2", 300000, 3)],
      need={"joined rows": 10000, "rows exactly at the limit": 3000, "rows over the limit": 2000,
            "open at the end:unterminated-quote": 500, "open at the end:unterminated-escape": 500},
      rule=MODEL_RULE + "values with up to 40 embedded LF/CRLF at any place, encoded quoted or escaped, rows at and "
      "above the limit, rows left open at the end of the data and character soups of quotes, escapes and breaks; "
      "non-trivial: distinct (setup, delimiter, document) fully compared",
      assumptions=["a limit of N allows N additional lines, as the existing tests require"])

check("C06", technique="runtime monitoring: equivalence with the document without empty lines",
      note=MODEL_NOTE,
      src=["c06.cpp"], setups=True,
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"ignored empty lines": 20000, "empty lines at the start": 2000, "empty lines after the header": 2000,
            "empty lines at the end": 2000, "empty lines as one column": 2000, "empty lines as an error": 2000},
      rule="documents known by construction with empty lines inserted at the start, around the header, between rows "
      "and at the end; with and without ignore_empty, header queries, selections and skipping; non-trivial: distinct "
      "(setup, delimiter, document)")

check("C07", technique="runtime monitoring: lockstep differential traces of file and buffer parsers",
      note="Compares every observable of two parsers of the same tree after each call; held on the executed traces.",
      src=["c07.cpp"], setups=True,
      quick=[("plain", 80000, 0)],
      thorough=[("fast", 1500000, 1), ("gcc", 500000, 2)],
      need={"calls which succeeded": 50000, "calls which failed": 20000, "files removed after they were opened": 500,
            "files renamed after they were opened": 500, "files replaced by others after they were opened": 500,
            "files opened relative to another directory": 500},
      rule="the same random call sequence (reads, skips, header queries, selections, iteration, calls past the end) on "
      "a file and on an exact-size buffer with the same bytes; messages compared up to the source name; non-trivial: "
      "distinct (setup, delimiter, data, calls)",
      assumptions=["no NUL bytes in the data"])

check("C08", technique="runtime monitoring: lockstep differential traces of the three error modes",
      note="Compares three parsers of the same tree after each call; held on the executed traces.",
      src=["c08.cpp"], setups=True,
      quick=[("plain", 100000, 0)],
      thorough=[("fast", 1500000, 1), ("gcc", 500000, 2)],
      need={"calls which succeeded": 40000, "calls which failed": 20000, "failed conversions": 5000,
            "sources which cannot be opened": 300},
      rule="the same random call sequence on parsers (and lines on converters) in the default, string and exception "
      "mode; outcomes, values, positions and messages compared; non-trivial: distinct (setup, delimiter, data, calls)")

check("C09", technique="runtime monitoring: online accounting monitor and resume-at-position oracle",
      note=MODEL_NOTE + "The resume workload needs no model: the rest of the data is read by a second parser.",
      src=["c09.cpp"], setups=True,
      quick=[("plain", 50000, 0), ("fast", 100, 0, "HUGE-POSITIONS")],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("fast", 100, 0, "HUGE-POSITIONS")],
      need={"read:ok": 30000, "resumed reads": 5000, "joined rows": 3000, "ignored rows": 3000,
            "read:end-of-data": 10000},
      rule=MODEL_RULE + "line(), position() and eof() checked after every call; non-trivial: distinct (setup, "
      "delimiter, data) fully compared")

check("C10", technique="runtime monitoring: projection oracle over tables known by construction",
      note=MODEL_NOTE,
      src=["c10.cpp"], setups=True,
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"projected rows": 30000, "selections during the read": 10000, "rows:column-count": 3000,
            "rows:mapping-count": 3000},
      rule="tables with distinct random header names, selections of random subsets in random order before and during "
      "the read, irregular rows and wrong numbers of types; plus arbitrary documents against the model; non-trivial: "
      "distinct (setup, delimiter, table, calls)")

check("C11", technique="runtime monitoring: header oracle and undisturbed-twin comparison",
      note=MODEL_NOTE,
      src=["c11.cpp"], setups=True,
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"header:ok": 10000, "header:bad-header": 1000, "existing fields": 5000, "selection:duplicate-header": 500,
            "queries": 20000},
      rule=MODEL_RULE + "headers are well-formed, malformed, hostile or with duplicates; queries are mixed with reads "
      "and selections, and a twin without queries has to read the same; non-trivial: distinct (setup, delimiter, data)")

check("C12", technique="runtime monitoring: skip oracle over rows known by construction",
      note=MODEL_NOTE,
      src=["c12.cpp"], setups=True,
      quick=[("plain", 100000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"ignored rows": 20000, "ignored last rows": 2000, "ignored headers": 2000,
            "selections before the header": 2000, "selections after the header": 2000, "ignored multiline rows": 1000},
      rule="documents with rows known by construction (some malformed, some preceded by ignored empty lines), random "
      "patterns of ignore_next, ignore_header and selections; non-trivial: distinct (setup, delimiter, data, calls)")

check("C22", technique="runtime monitoring: bounded-progress and end-of-data monitor",
      note="Progress is decided in logical steps (lines consumed per read); held on the executed traces. " + MODEL_NOTE,
      src=["c22.cpp"], setups=True,
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"reads": 50000, "reads at the end of the data": 20000, "ignored rows": 3000},
      rule="arbitrary documents read to the end and beyond with random calls; non-trivial: distinct (setup, delimiter, "
      "data, calls)")

check("C31", technique="runtime monitoring: message oracle (source, line, column, text, counts)",
      note=MODEL_NOTE + "Only the identifying parts of a message are compared, not its wording.",
      src=["c31.cpp"], setups=True,
      quick=[("plain", 80000, 0)],
      thorough=[("fast", 1500000, 1), ("gcc", 300000, 2)],
      need={"message:column-count": 5000, "message:mismatched-quote": 500, "message:unterminated-quote": 300,
            "message:multiline-limit": 100, "message:unknown-field": 300, "failed conversions": 5000,
            "failed restrictions": 1000, "failing columns of wide rows": 500},
      rule=MODEL_RULE + "every failing call with string errors or exceptions has its message checked; non-trivial: "
      "distinct (setup, delimiter, data)",
      assumptions=["columns are only checked without a field selection"])

check("C13", technique="runtime monitoring: independent decimal oracle, short texts and small types enumerated",
      note="All texts of up to five characters over eleven significant ones and all values of the 8 and 16 bit types "
      "are enumerated in the quick check; the rest is sampled around every bound.",
      src=["c13.cpp"],
      quick=[("plain", 100000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"numbers enumerated": 139000, "texts enumerated": 180000, "accepted int64": 5000, "rejected uint64": 5000,
            "accepted ss::int8": 1000, "accepted ss::uint8": 1000, "long texts": 900},
      rule="texts around the bounds of every integer type, with leading zeros, signs, damage at either end, any number "
      "of digits; through extract on exact-size ranges, as a column between others and as rows; non-trivial: "
      "distinct texts")

VARIANTS["nofast"] = dict(VARIANTS["plain"], lib=["-O0", "-DSSP_DISABLE_FAST_FLOAT"],
                          scen=["-O1", "-DSSP_DISABLE_FAST_FLOAT"])
VARIANTS["nofast-asan"] = dict(VARIANTS["asan"], lib=VARIANTS["asan"]["lib"] + ["-DSSP_DISABLE_FAST_FLOAT"],
                               scen=VARIANTS["asan"]["scen"] + ["-DSSP_DISABLE_FAST_FLOAT"])
VARIANTS["o1"] = dict(cxx=["clang++", "-fbracket-depth=1024"], lib=["-O0"], scen=["-O1"])

check("C14", technique="runtime monitoring: exact arithmetic rounding oracle on both floating point back ends",
      note="Every accepted value is verified with arbitrary precision integers; overflow and underflow may be rejected, "
      "words (inf, nan) are not decided. Both back ends run the same texts.",
      src=["c14.cpp"],
      quick=[("o1", 40000, 0), ("nofast", 40000, 0)],
      thorough=[("fast", 1000000, 1), ("nofast", 1000000, 1), ("gcc", 300000, 2), ("nofast-asan", 100000, 3)],
      need={"round trips": 100000, "points half way": 8000, "lengths around 64": 2000, "lengths above 68": 3000,
            "texts enumerated": 300000, "accepted double": 30000, "rejected double": 30000, "accepted float": 30000,
            "long texts": 500},
      rule="bit patterns over all exponents printed and read back, exact points half way between neighbours and texts "
      "just above and below them, long texts padded to lengths around 64, damage, all texts of up to five characters "
      "over eleven significant ones; with both back ends; non-trivial: distinct texts and patterns")

check("C15", technique="runtime monitoring: reference oracle, one and two byte texts and changed words enumerated",
      note="All texts of one and two bytes and all one byte changes of the words true, false, 0, 1 are enumerated.",
      src=["c15.cpp"],
      quick=[("plain", 20000, 0)],
      thorough=[("fast", 300000, 1), ("gcc", 100000, 2), ("asan-o2", 30000, 3)],
      need={"texts enumerated": 65000, "changed words": 256, "views read": 3000, "accepted bool": 2000,
            "rejected bool": 2000, "accepted int8_t": 200, "accepted ss::int8": 1000, "long texts": 900},
      rule="texts through extract on exact-size ranges, as a column between others and as rows; views read by the "
      "parser compared after the read; non-trivial: distinct texts")

check("C16", technique="runtime monitoring: reference oracle for the held alternative and value",
      note="Sampled texts over 26 compositions; acceptance of the base types comes from an independent reference.",
      src=["c16.cpp"],
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"converted rows": 10000, "rows not converted": 3000, "accepted variant<bool,int32,char>": 1000,
            "rejected variant<bool,int32,char>": 300, "accepted optional<variant<int32,char>>": 1000},
      rule="fields which are accepted by some, none or all alternatives, alone (exact-size ranges), as a column between "
      "others and in rows of several such columns, in all error modes; non-trivial: distinct (types, data)")

check("C17", technique="runtime monitoring: independent predicate oracle at and around every bound",
      note="Bounds are enumerated for 18 restrictions, rows are sampled for 60; comparisons in the oracle are exact. "
      "Restrictions which compare values of different signedness are not used.",
      src=["c17.cpp"],
      quick=[("plain", 150000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 200000, 3)],
      need={"restricted rows": 10000, "converted rows": 10000, "values around bounds": 1000, "validator calls": 5000, "values checked by validators with a state": 50000,
            "rows not converted": 3000},
      rule="rows of restricted columns with fields at, around and away from the bounds, in all error modes, on parsers "
      "and reused converters; every integer around the bounds of the built-in restrictions; recorded calls of custom "
      "validators; non-trivial: distinct (types, data)",
      assumptions=["no comparison of values of different signedness"])

check("C18", technique="runtime monitoring: recorded calls of user conversions and an all-or-nothing oracle",
      note="Sampled rows over 22 lists of types; what each column accepts comes from the independent reference.",
      src=["c18.cpp"],
      quick=[("plain", 100000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 200000, 3)],
      need={"user conversions": 50000, "wrong column counts": 5000, "converted rows": 10000, "rows not converted": 10000,
            "restricted rows": 500, "mapped reads": 5000, "rows of many types": 500, "rows of a far width": 500},
      rule="rows whose columns succeed, fail or are too many or too few, read as lists of built-in, ignored, optional, "
      "variant, restricted and user defined types whose calls are recorded, with and without selected fields, by "
      "parsers and reused converters in all error modes; non-trivial: distinct (types, data)")

check("C19", technique="runtime monitoring: lockstep equivalence of all forms of reading a row",
      note="A parser reading in a random mixture of forms is compared after every row with one of the same tree which "
      "only uses plain reads; a converter is compared with a fresh one.",
      src=["c19.cpp"],
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 200000, 3)],
      need={"equal rows": 20000, "equal failures": 20000, "equal conversions": 40000, "container rows": 5000,
            "form get_next<Tied>": 3000, "form try_object<Obj, Ts...>": 3000, "form iterate_object<Obj, tuple>": 3000},
      rule="rows (some malformed, some not converting, some with wrong counts) read by a random mixture of 14 forms on "
      "parsers and 13 on converters for 9 lists of types, in all error modes, with and without selected fields; "
      "non-trivial: distinct (types, data)",
      assumptions=["tied structs and objects whose default values are those of their columns"])

check("C20", technique="runtime monitoring: recorded callbacks and conversions against a chain oracle",
      note="The trace of callbacks, error callbacks and user conversions of every chain is compared with the one "
      "expected from the reference; rows are known from the reference model. " + MODEL_NOTE,
      src=["c20.cpp"],
      quick=[("plain", 180000, 0)],
      thorough=[("fast", 3000000, 1), ("gcc", 1000000, 2), ("asan-o2", 200000, 3)],
      need={"chains on rows": 50000, "chains on unreadable rows": 5000, "chains at the end": 30000, "held by none": 10000,
            "held by alternative 0": 10000, "held by alternative 1": 3000, "held by alternative 2": 2000,
            "held by alternative 3": 300},
      rule="12 shapes of chains of up to four alternatives (types, objects, restrictions, user defined types) with ten "
      "kinds of callbacks whose results are chosen at random and error callbacks at random places, on well-formed, "
      "malformed, multiline rows and at the end of the data; non-trivial: distinct (chain, data)")

check("C21", technique="runtime monitoring: lockstep comparison of loops with plain reads and the reference model",
      note=MODEL_NOTE + "The typed workload compares with a parser of the same tree which only uses plain reads.",
      src=["c21.cpp"], setups=True,
      quick=[("plain", 120000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"loops": 50000, "loops at the end": 10000, "visited valid rows": 30000, "visited errors": 10000,
            "iterated rows": 30000},
      rule="range-for, prefix, postfix and restarted iterations over rows and objects, stopped anywhere and mixed with "
      "reads and skips, in all error modes; plus iterations over all setups against the model; non-trivial: distinct "
      "(types or setup, data, calls)")


check("C23", technique="runtime monitoring: conservation of resources and continuation oracle over move histories",
      note=MODEL_NOTE + "Allocations are accounted for by an interposed allocator (leaks, double frees, writes past the "
      "end or after the release), descriptors by the lowest free number.",
      src=["c23.cpp"], setups=True, alloc=True,
      quick=[("plain", 30000, 0)],
      thorough=[("fast", 1000000, 1), ("gcc", 300000, 2), ("asan-o2", 100000, 3)],
      need={"moves of a read": 20000, "moves of a moved-from": 2000, "assignments to another read": 5000,
            "assignments to a moved-from": 2000, "streams read to the end": 5000, "failed constructions": 500,
            "sources which cannot be opened": 1000, "allocations": 100000},
      rule="pools of parsers of one type over files, buffers and sources which cannot be opened, moved by construction "
      "and assignment in any direction, read between and after the moves in lockstep with the model and destroyed in "
      "any order; non-trivial: distinct histories")

check("C24", technique="runtime monitoring: reused-versus-fresh converter and converter-versus-parser oracles",
      note="Compares the library with itself (a fresh converter, the parser); held on the executed histories.",
      src=["c24.cpp"], setups=True,
      quick=[("plain", 80000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"converted lines": 30000, "lines not converted": 10000, "conversions of given splits": 10000,
            "conversions of kept splits": 10000, "converted again": 3000, "copies": 3000, "joined rows": 1000,
            "typed rows": 10000, "typed conversions of kept splits": 10000,
            "conversions of foreign ranges": 20000, "typed conversions of foreign ranges": 3000},
      rule="sequences of lines (well-formed, malformed, empty, hostile) with changing delimiters, numbers of columns and "
      "types on one converter (also copied), each result compared with that of a fresh one; kept and given splits "
      "converted repeatedly; rows of documents read by a parser compared with their conversion; non-trivial: distinct "
      "(setup, lines)",
      assumptions=["lines given to a converter with multiline enabled are complete rows",
                   "an empty line has no columns for a converter"])

check("C25", technique="runtime monitoring: guard pages, write protection and content comparison",
      note="An access next to the data or a write to it ends the process, which is reported with the case; held on the "
      "executed cases.",
      src=["c25.cpp"], setups=True,
      quick=[("plain", 30000, 0), ("nofast", 3000, 1)],
      thorough=[("fast", 1000000, 1), ("gcc", 300000, 2), ("asan-o2", 100000, 3), ("nofast", 300000, 4)],
      need={"rows": 30000, "read-only buffers": 5000, "writable buffers": 5000, "lines which may not be edited": 3000,
            "edited lines": 10000, "ranges": 50000, "views": 30000, "values extracted": 50000},
      rule="buffers which end at or begin behind an inaccessible page, read-only or compared after every call, read by "
      "random calls; lines whose terminator is the last accessible byte, read-only for setups which do not edit; "
      "views kept over later conversions, moves and the end of the converter; texts extracted from ranges which end "
      "at an inaccessible page; non-trivial: distinct (setup, data)")

check("C26", technique="runtime monitoring: differential traces of the single header and the separate headers",
      note="Both builds run in one program and are compared call by call; held on the executed jobs.",
      src=["c26.cpp"], setups=True, alt=["-DUSE_SINGLE_HEADER", "-I{REPO}"],
      generated="C26-generated",
      quick=[("plain", 50000, 0)],
      thorough=[("fast", 1000000, 1), ("gcc", 300000, 2), ("asan-o2", 60000, 3), ("nofast", 300000, 4)],
      need={"parser traces": 20000, "typed traces": 20000, "converted lines": 20000},
      rule="random documents and call sequences over 40 setups x 3 error modes x file/buffer, converter lines, and typed "
      "reads (numbers, restrictions, objects, optionals, variants, chains of substitutes, loops); non-trivial: "
      "distinct (setup, data)",
      assumptions=["texts of floating points which overflow or underflow and words (inf, nan) are not compared: the "
                   "back ends differ in what is not specified"])

check("C27", technique="runtime monitoring: differential traces of both line readers against the bytes of the file",
      note="Both builds run in one program; the portable one is compiled without __unix__. Allocations of the readers "
      "are accounted for by an interposed allocator.",
      src=["c27.cpp"], setups=True, alloc=True, alt=["-U__unix__"],
      quick=[("plain", 25000, 0)],
      thorough=[("fast", 1000000, 1), ("gcc", 300000, 2), ("asan-o2", 60000, 3)],
      need={"lines": 50000, "lines longer than the buffer": 10000, "lines around multiples of the buffer": 5000,
            "parser traces": 20000},
      rule="files of lines whose lengths are drawn around multiples and powers of the internal buffer size, read line by "
      "line with reused and replaced buffers of any size, compared with the bytes of the file; and the same parser "
      "workloads on both builds; non-trivial: distinct files",
      assumptions=["no NUL bytes in the data"])

check("C29", technique="runtime monitoring: fault injection at every allocation with leak, canary and outcome oracles",
      note="Every allocation of a program fails in a run of its own (a sample of 600 for longer ones); the outcome of "
      "each is compared with the run without a failure.",
      src=["c29.cpp"], setups=True, alloc=True, level="fault_enumeration",
      quick=[("plain", 12000, 0)],
      thorough=[("fast", 60000, 1), ("gcc", 20000, 2)],
      need={"reads gone on behind a failure": 1000, "queries left out after a failure": 500,
            "failing allocations": 20000, "failing allocations of converters": 5000,
            "failing allocations of typed reads": 10000, "failures reported": 10000, "used further": 1000,
            "assigned to": 1000},
      rule="short programs of calls on parsers of all setups and modes, on converters and of typed reads, substitutes, "
      "objects, loops and selections; each repeated with every single allocation failing, then the object is "
      "destroyed, moved, assigned or used further; non-trivial: distinct programs",
      assumptions=["a file which cannot be opened for want of memory may be reported as such"])

check("C32", technique="runtime monitoring: exceptions injected by user code, continuation compared with a plain reader",
      note="Rows are known by construction; position and end are compared with a parser of the same tree which only uses "
      "plain reads.",
      src=["c32.cpp"],
      quick=[("plain", 200000, 0)],
      thorough=[("fast", 2000000, 1), ("gcc", 500000, 2), ("asan-o2", 200000, 3)],
      need={"rows left by exceptions": 20000, "rows read": 20000, "rows with errors": 5000, "loops left by exceptions": 3000,
            "chains": 10000, "lines left by exceptions": 5000},
      rule="rows whose user defined conversions, restrictions, constructors, callbacks or loop bodies throw at chosen "
      "places, between rows which are read, rejected or unreadable, by parsers in all error modes and on reused "
      "converters; non-trivial: distinct (data, calls)")

check("C28", technique="runtime monitoring: ThreadSanitizer and thread-versus-alone trace comparison",
      note="ThreadSanitizer reports any pair of unsynchronised accesses which the executed threads make, whatever their "
      "order; held on the executed calls.",
      src=["c28.cpp"], setups=True, shards=4,
      quick=[("tsan", 600, 0)],
      thorough=[("tsan", 20000, 1), ("fast", 100000, 2)],
      need={"concurrent jobs": 4000, "parser jobs": 500, "typed jobs": 300, "converter jobs": 200, "threads": 2000,
            "parsers handed over": 300, "equal traces": 1000},
      rule="two to eight threads run parser, converter and typed jobs of all setups and error modes at the same time, on "
      "the same files and buffers, without synchronising with each other; parsers handed from thread to thread; "
      "non-trivial: distinct (jobs, data)",
      assumptions=["every object is used by one thread at a time"])

check("C30", technique="runtime monitoring: differential traces of equivalent setups",
      note="Compares the library with itself under 56 spellings of 8 setups, and setups with their extensions on data "
      "which does not use the extension; held on the executed cases.",
      src=["c30.cpp"], setups=True, sliced=["spell.cpp"],
      quick=[("plain", 20000, 0)],
      thorough=[("fast", 1000000, 1), ("gcc", 300000, 2), ("asan-o2", 60000, 3)],
      need={"spellings compared": 60000, "converter spellings compared": 20000, "unused options": 8000,
            "unused multiline": 500, "unused ignore_empty": 500, "unused characters": 5000},
      rule="the same data and calls on every order, nesting (setup, tuple, both, repeatedly) and spelling of a setup, with "
      "parsers and converters; pairs of setups of which one has additional options, on data which does not use the "
      "characters of these; non-trivial: distinct (setup, delimiter, data)",
      assumptions=["no NUL bytes in the data"])

check("C01", technique="runtime monitoring: AddressSanitizer, UndefinedBehaviourSanitizer, memcheck and live-byte accounting",
      note="Any bytes are given to any setup by any calls; the instrumentation decides. The workloads of other properties "
      "are run for their executions as well. Held on the executed cases.",
      src=["c01.cpp", "../h/trace.cpp"], setups=True, flags=["-DTRACE_FN=trace_main"],
      quick=[("asan", 20000, 0), ("nofast-asan", 3000, 1), ("memcheck", 400, 2)] +
      [("asan", n, 3, p) for p, n in (("C05", 2000), ("C18", 2000), ("C19", 1500), ("C20", 2000), ("C23", 2000),
                                      ("C24", 2000), ("C32", 2000))],
      thorough=[("asan-o2", 600000, 0), ("nofast-asan", 100000, 1), ("memcheck", 5000, 2)] +
      [("asan-o2", 50000, 3, "C%02d" % p) for p in range(2, 33) if p not in (26, 27, 28, 29)],
      need={"calls": 50000, "rows": 10000, "errors": 10000, "data with NUL bytes": 1000, "converter calls": 20000,
            "texts": 4000, "typed calls": 20000, "bytes of views": 10000, "bytes of long rows": 100000,
            "parsers moved around": 1000},
      rule="data of any bytes (well-formed, damaged, cut off, runs of special characters, NUL bytes, long rows), "
      "delimiters which share characters with the setup, random calls on parsers of all setups and modes, converters, "
      "all types and compositions; allocations, stack, undefined behaviour, assertions of the standard library, "
      "uninitialised values (memcheck) and live bytes are watched; non-trivial: distinct (setup, data)")

check("C34", technique="runtime monitoring: repeated executions in changed surroundings, traces compared",
      note="Compares the library with itself in a plain surrounding (C locale, zero filled memory, nothing before); held "
      "on the executed jobs.",
      src=["c34.cpp", "../h/trace.cpp", "../h/live.cpp"], setups=True, flags=["-DTRACE_FN=trace_main"],
      quick=[("plain", 15000, 0), ("nofast", 10000, 1)],
      thorough=[("fast", 600000, 1), ("nofast", 300000, 2), ("gcc", 300000, 3)],
      need={"equal runs": 20000, "runs in other locales": 10000, "runs with filled memory": 10000,
            "runs with other jobs": 10000, "texts in other locales": 10000, "runs with a global std::locale": 5000},
      rule="parser, converter and typed jobs of all setups, sources and modes, each run plainly and again in other locales "
      "(decimal comma, multi-byte decimal point, other letters and spaces), with a global std::locale, errno set, heap "
      "and stack filled with any byte, after and interleaved with other jobs; non-trivial: distinct (job, data)",
      assumptions=["the floating point environment is the default one"])

check("C33", technique="runtime monitoring: live-byte accounting over long repetitions of rows",
      note="The memory in use while rows are read for the thousandth time is compared with that of the first times; held "
      "on the executed repetitions.",
      src=["c33.cpp", "../h/live.cpp"], setups=True,
      quick=[("plain", 600, 0)],
      thorough=[("fast", 60000, 1), ("gcc", 20000, 2)],
      need={"rows": 500000, "rows with queries": 300000, "converted lines": 200000, "typed rows": 300000},
      rule="documents which repeat their rows (some malformed, joined or not converting) up to 3000 times, read, skipped, "
      "iterated, queried and moved by parsers of all setups and modes, typed reads and substitutes, converters reused "
      "for hundreds of lines; the live bytes are sampled after every call; non-trivial: distinct (setup, rows)")

check("C35", technique="runtime monitoring: counted basic blocks, bytes moved and bytes allocated at two sizes of the same data",
      note="The count does not depend on the machine or its load. Work inside the C library other than the memory and "
      "string functions (getline, stdio, realloc for joined rows) is not counted. Held on the executed cases.",
      src=["c35.cpp", "../h/work.cpp", "../h/reader.cpp"], setups=True,
      quick=[("work", 1200, 0)],
      thorough=[("work", 60000, 1)],
      need={"many rows of a file": 100, "many rows of a buffer": 100, "long quoted values": 15, "many doubled quotes": 15,
            "many escapes": 15, "long spacing": 15, "rows of many quoted lines": 15, "rows of many escaped lines": 8,
            "many columns": 30, "many empty lines": 30, "mismatched quotes": 20, "parts of delimiters": 10,
            "data not reached": 200, "moves": 200, "rows after much else": 200, "lines after a long one": 100,
            "typed rows": 100, "long values": 50, "rows of selected fields": 50, "long headers": 50,
            "long lines of the portable reader": 20, "many lines of the portable reader": 20, "columns of converters": 100, "lines of converters": 100},
      rule="rows, parts of a row, lines of a joined row, spacing, escapes, quotes, partial delimiters, columns and empty "
      "lines repeated n and 16 n times in parsers (all setups, modes, sources; skipping, iterating, queries, moves) and "
      "converters, rows and long values read as other types; the work of the larger may be at most 32 times that of the smaller; the first rows of a document with "
      "and without more behind them; moves of parsers which hold little and much; non-trivial: distinct (setup, piece)",
      assumptions=["rows of many columns are not at the same time rows of many lines: each further line of a joined row "
                   "costs work for each column before it"])

check("C36", technique="runtime monitoring: snapshots of the state of the process around, between and within calls",
      note="State is compared as the operating system and the C and C++ libraries report it; held on the executed jobs.",
      src=["c36.cpp", "../h/trace.cpp"], setups=True, flags=["-DTRACE_FN=trace_main"],
      quick=[("plain", 5000, 0), ("nofast", 4000, 1)],
      thorough=[("fast", 200000, 1), ("nofast", 200000, 2), ("gcc", 100000, 3)],
      need={"calls watched": 10000, "in other locales": 1000, "converter jobs": 500, "jobs on files": 500, "jobs on buffers": 500,
            "files which are missing": 200, "files opened": 200, "conversions looked into": 1000},
      rule="parser, converter and typed jobs of all setups, sources and modes, in processes whose locale, streams, signal "
      "handling, mask, directory and standard streams were changed before; everything the process has is recorded before "
      "and after the job, the quickly readable part after every call and within conversions; non-trivial: distinct (job, data)",
      assumptions=["errno and the exception flags of the processor may change"])

# the same library compiled in another way
UCHAR = ["-O0", "-std=c++20", "-funsigned-char", "-fsanitize=undefined", "-fno-sanitize=vptr,function",
         "-fsanitize-trap=undefined", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS["uchar"] = dict(cxx=["clang++", "-fbracket-depth=1024"], lib=UCHAR, scen=UCHAR)
GCC23 = ["-O1", "-std=c++23"]
VARIANTS["gcc23"] = dict(cxx=["g++"], lib=GCC23, scen=GCC23)
check("PORTABLE-GCC", helper=True, src=["c37.cpp"], setups=True, alt=GCC23, alt_cxx=["g++"])
GCC20 = ["-O0", "-std=c++20"]
VARIANTS["gcc20"] = dict(cxx=["g++"], lib=GCC20, scen=GCC20)
for _p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
    check("PORTABLE-" + _p, helper=True, src=CHECKS[_p]["src"], flags=CHECKS[_p].get("flags", []))

check("C37", technique="runtime monitoring: differential traces of builds by different compilers, standards and options",
      note="The usual build (clang, C++17) and another one run in one program and are compared call by call; conversions "
      "are compared with the references of C13 to C17 in those builds. Held on the executed jobs.",
      src=["c37.cpp"], setups=True, alt=UCHAR,
      quick=[("plain", 30000, 0), ("plain", 30000, 1, "PORTABLE-GCC"), ("uchar", 20000, 2, "PORTABLE-C13"),
             ("uchar", 20000, 3, "PORTABLE-C14"), ("uchar", 8000, 4, "PORTABLE-C15"), ("uchar", 20000, 5, "PORTABLE-C16"),
             ("uchar", 20000, 6, "PORTABLE-C17"), ("gcc20", 10000, 7, "PORTABLE-C18"), ("gcc20", 10000, 8, "PORTABLE-C20")],
      thorough=[("fast", 600000, 0), ("gcc", 300000, 1), ("fast", 600000, 2, "PORTABLE-GCC"), ("nofast", 200000, 3, "PORTABLE-GCC")] +
      [(v, 200000, 4, "PORTABLE-" + p) for v in ("uchar", "gcc23") for p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20")],
      need={"parser traces": 20000, "typed traces": 20000, "converted lines": 20000},
      rule="random documents and call sequences over 40 setups x 3 error modes x file/buffer, converter lines and typed reads, "
      "with the library compiled by clang as C++17 and C++20 with unsigned char, and by gcc as C++23; "
      "texts of all types in the other builds; non-trivial: distinct (setup, data)",
      assumptions=["only the compilers and the standard library which are installed (no libc++, 64 bits)"])
