"""What each check consists of: harness sources, build variant, budgets."""

VARIANTS = {
    # memory errors and undefined behaviour become visible failures
    "asan": {
        "flags": "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                 "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
    },
    "plain": {"flags": "-g -O2 -D_GLIBCXX_ASSERTIONS"},
    # deterministic scheduler instead of the ThreadSanitizer run time
    "sched": {
        "flags": "-g -O1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS",
        "instr": "-Xclang;-fsanitize=thread",
        "rt": ["dsched.cc", "pbt.cc"],
    },
    "tsan": {"flags": "-g -O1 -fsanitize=thread"},
    "fuzz": {
        "flags": "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link "
                 "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
        "ldflags": "-fsanitize=fuzzer",
        "defs": ["PBT_LIBFUZZER"],
    },
}


def eng(name, src, variant="asan", **kw):
    d = {"name": name, "src": src if isinstance(src, list) else [src], "variant": variant}
    d.update(kw)
    return d


CHECKS = {
    "C01": {
        "engines": [eng("main", "c01.cc")],
        "quick": 15, "thorough": 500, "fuzz": True,
        "technique": "property-based testing: round-trip through a strict format parser, plus coverage-guided fuzzing",
        "rule": "families of all six types with arbitrary names, labels, help bytes, values and timestamps, given to "
                "the serializer directly (2/3) or registered and filled through the public API (1/3); non-trivial: at "
                "least one series and (something to escape, a timestamp, or more than two series; or a non-empty registry)",
        "assumptions": ["the strict reader in src/textparse.h represents the text format 0.0.4"],
    },
    "C02": {
        "engines": [eng("main", "c02.cc")],
        "quick": 12, "thorough": 400, "fuzz": True,
        "technique": "property-based testing: numeric round-trip, plus coverage-guided fuzzing",
        "rule": "one number (special, decimal, integer, random mantissa, random bits) in one of eight numeric positions, "
                "or a 64 bit count, or all positions of a document of up to four families; non-trivial: not an integer of one "
                "digit, a document of more than two numbers",
        "assumptions": ["strtod of the C library is correctly rounded"],
    },
    "C03": {
        "engines": [eng("main", "c03.cc", workers=5), eng("schedule", "c03s.cc", "sched", env={"PBT_COLD": "150"}, workers=3)],
        "quick": 12, "thorough": 400, "fuzz": True,
        "technique": "property-based testing: metamorphic relation over locales and stream states, plus coverage-guided fuzzing; "
                     "generated schedules with race detection",
        "rule": "main: random families serialized under a random global C++ locale, C locale, stream locale, flags, precision, "
                "width and fill, whole or in pieces, within another serialization, by several threads; non-trivial: at least one "
                "series and a changed setting; schedule: 2-4 threads serialize shared or own documents to strings and to "
                "streams that yield in the middle; non-trivial: more than one series, more switches than threads",
        "assumptions": ["locale de_DE.UTF-8 is installed (as in this sandbox), otherwise that class stays empty"],
    },
}

CHECKS["C04"] = {
    "engines": [eng("history", "c04.cc", workers=1),
                eng("schedule", "c04s.cc", "sched", env={"PBT_COLD": "150"}, workers=5),
                eng("schedule20", "c04s.cc", "sched", workers=2, std=20)],
    "quick": 12, "thorough": 400,
    "technique": "stateful property-based testing against a model; generated schedules checked for linearizability",
    "rule": "history: sequences of increments (also negative, huge, infinite), resets, collects against a model; "
            "schedule: 2-4 threads under a drawn interleaving, checked for linearizability and data races; non-trivial: "
            "more than two operations / more context switches than threads and at least two writes",
    "assumptions": ["increments by NaN are outside of the property", "interleavings are sequentially consistent"],
}
CHECKS["C05"] = {
    "engines": [eng("history", ["c05.cc", "vclock.cc"], workers=1),
                eng("history20", ["c05.cc", "vclock.cc"], workers=1, std=20),
                eng("schedule", "c04s.cc", "sched", env={"PBT_COLD": "150"}, defs=["GAUGE"], workers=4),
                eng("schedule20", "c04s.cc", "sched", defs=["GAUGE"], workers=2, std=20)],
    "quick": 12, "thorough": 400,
    "technique": "stateful property-based testing against a model; generated schedules checked for linearizability",
    "rule": "history: sequences of set/increment/decrement with arbitrary doubles and of setting to a virtual wall clock, "
            "against a model; schedule: 2-4 threads under a drawn interleaving, checked for linearizability and data "
            "races; non-trivial: more than two operations / more context switches than threads and at least two writes",
    "assumptions": ["interleavings are sequentially consistent", "the wall clock is not before 1970"],
}
CHECKS["C06"] = {
    "engines": [eng("main", "c06.cc")],
    "quick": 12, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing against a counting model, plus coverage-guided fuzzing",
    "rule": "random boundaries (also infinite) and sequences of observations (at, next to, between boundaries, infinite, "
            "NaN), batches, wrong batches, resets against a counting model, or boundaries that must be rejected; "
            "non-trivial: at least two observations and one boundary, or invalid boundaries",
    "assumptions": ["batch increments are non-negative integers", "a single NaN boundary is outside of the property"],
}
CHECKS["C07"] = {
    "engines": [eng("schedule", "c07.cc", "sched", env={"PBT_COLD": "150"}, workers=8)],
    "quick": 15, "thorough": 400,
    "technique": "property-based testing over generated schedules checked for linearizability",
    "rule": "2-4 threads observe, batch-observe, reset and collect one histogram or summary under a drawn interleaving; "
            "the snapshots have to be linearizable, without data race, use after free or deadlock; non-trivial: more "
            "context switches than threads and both a write and a collect",
    "assumptions": ["interleavings are sequentially consistent"],
}
CHECKS["C08"] = {
    "engines": [eng("main", ["c08.cc", "vclock.cc"])],
    "quick": 20, "thorough": 400, "fuzz": False,
    "technique": "property-based testing against exact ranks of the sorted observations",
    "rule": "up to 6000 observations in eight arrival orders; strict (one quantile, error at most an eighth of its "
            "distance to 0 and 1, ascending, random or few distinct values, read once: 1.1*error*n+8 ranks) or loose (1-4 "
            "quantiles, error at most a quarter of the distance, reads in between: 2.5 to 4 times error*n + 10 ranks); non-trivial: more "
            "than 20 observations",
    "assumptions": ["NaN observations are outside of the property"],
}
CHECKS["C09"] = {
    "engines": [eng("main", ["c09.cc", "vclock.cc"])],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing with a virtual clock against a window model, plus coverage-guided fuzzing",
    "rule": "histories of observations, collects and clock advances (fractions and multiples of the rotation interval, "
            "exactly at and next to it, many windows) for random windows; non-trivial: more than two observations of "
            "which some expired or had to be kept at a collect",
    "assumptions": ["the summary reads its time from the C library (checked at start)", "maximum age of at least 1 ms"],
}
CHECKS["C10"] = {
    "engines": [eng("main", ["c10.cc", "vclock.cc"])],
    "quick": 12, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing with a virtual clock against a model, plus coverage-guided fuzzing",
    "rule": "histories of single and mass observations, clock advances and collects on one to three summaries; "
            "non-trivial: at least two observations and a collect in between",
    "assumptions": ["the sum is accumulated with rounding errors of any order for values that are not dyadic"],
}
CHECKS["C11"] = {
    "engines": [eng("main", "c11.cc")],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing against a map, plus coverage-guided fuzzing",
    "rule": "histories of add, update, has, remove, collect and rejected adds on a family of one of the five types with "
            "easily confused label sets or hundreds of them; non-trivial: at the end more than one metric, or a removal",
    "assumptions": [],
}
CHECKS["C12"] = {
    "engines": [eng("main", "c12.cc", defs=["LOCALES"])],
    "quick": 12, "thorough": 400, "fuzz": True,
    "technique": "property-based testing against the grammar, plus coverage-guided fuzzing",
    "rule": "names (edge cases, valid ones with one byte changed, valid ones, arbitrary bytes) for the predicates, or as "
            "family name, constant and own labels of the five types; every case is non-trivial",
    "assumptions": [],
}
CHECKS["C13"] = {
    "engines": [eng("main", "c13.cc")],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing against a map, plus coverage-guided fuzzing",
    "rule": "histories of register (colliding names and types, constant labels, invalid names), add, update, remove, "
            "foreign remove and collect on one or two registries in both modes; non-trivial: more than two registrations",
    "assumptions": [],
}
CHECKS["C14"] = {
    "engines": [eng("schedule", "c14.cc", "sched", env={"PBT_COLD": "150"}, workers=8)],
    "quick": 20, "thorough": 400,
    "technique": "property-based testing over generated schedules checked for linearizability",
    "rule": "2-4 threads register, remove and collect families, or add, remove, look up, update and collect metrics, under "
            "a drawn interleaving; linearizable results, values by containment, no data race, use after free or deadlock; "
            "non-trivial: more context switches than threads and at least two writes",
    "assumptions": ["interleavings are sequentially consistent", "a thread does not use what another one removes"],
}
CHECKS["C19"] = {
    "engines": [eng("main", "c19.cc", libs=["core", "util"], defs=["LOCALES"])],
    "quick": 12, "thorough": 300, "fuzz": True,
    "technique": "property-based testing: round-trip and differential against a bitwise reference, plus coverage-guided fuzzing",
    "rule": "byte strings up to 400000 (mostly up to 5000) bytes encoded in both alphabets and decoded again, or encodings with up to three edits "
            "decoded; non-trivial: not empty",
    "assumptions": ["text with unused bits set may be accepted or rejected"],
}
CHECKS["C20"] = {
    "engines": [eng("main", "c20.cc", libs=["core", "push"], defs=["LOCALES"])],
    "quick": 15, "thorough": 300, "fuzz": True,
    "technique": "property-based testing: round-trip through the real HTTP client and a decoder of the server side, plus "
                 "coverage-guided fuzzing",
    "rule": "job names and label values (path syntax, percent signs, dot segments, arbitrary bytes) with three forms of "
            "base address, sent by pushes and deletes to a loopback server; non-trivial: a label, or a job name of more "
            "than plain letters",
    "assumptions": ["label names are valid and differ from job", "the decoder in src/pushutil.h represents the push gateway"],
}
CHECKS["C21"] = {
    "engines": [eng("main", "c21.cc", libs=["core", "push"])],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing against a model of the requests seen by a loopback server, plus "
                 "coverage-guided fuzzing",
    "rule": "histories of register, update, destroy, synchronous and asynchronous pushes and deletes, and custom headers, "
            "with four kinds of gateway (also credentials, set-up by the user) and bodies from empty to 2.5 MB; "
            "non-trivial: a push and more than one request",
    "assumptions": ["user names are not empty and without colon", "label names are valid and differ from job"],
}
CHECKS["C22"] = {
    "engines": [eng("main", "c22.cc", libs=["core", "push"])],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "property-based testing with injected server faults against a model of the results, plus coverage-guided "
                 "fuzzing",
    "rule": "several operations of a gateway with up to five collectables against scripted answers: success and failure "
            "statuses, kept or closed or hung up connections, drops, resets, truncation, half status lines, garbage, stalls with a "
            "timeout, refused connections; non-trivial: at least one request fails",
    "assumptions": ["redirects and informational statuses are outside of the property",
                    "libcurl repeats a request if a kept connection turns out to be closed"],
}
CHECKS["C23"] = {
    "engines": [eng("schedule", "c23.cc", "sched", env={"PBT_COLD": "150"}, workers=8, libs=["core", "push"])],
    "quick": 20, "thorough": 400,
    "technique": "property-based testing over generated schedules, with a recording stand-in for libcurl",
    "rule": "2-4 threads register and drop collectables, add headers, push and delete synchronously and asynchronously on one "
            "gateway under a drawn interleaving, requests fail in a third of the cases; the recorded requests have to "
            "match the operations, without data race, use after free or deadlock; non-trivial: more context switches "
            "than threads and at least two pushes or deletes",
    "assumptions": ["interleavings are sequentially consistent", "the stand-in has the semantics of libcurl's options"],
}
CHECKS["C15"] = {
    "engines": [eng("main", ["c15.cc", "civetfast.cc"], libs=["core", "pull"], link=["ZLIB::ZLIB"])],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing against a model over HTTP, plus coverage-guided fuzzing",
    "rule": "histories of register (also twice, also destroyed), remove, destroy, update and scrape of up to six "
            "collectables on up to eight paths and two ports of a real exposer; non-trivial: at least two collectables "
            "scraped and more than one path, a removal or a destruction",
    "assumptions": ["collectables that are registered together have different metric names (as the text format requires)"],
}
CHECKS["C16"] = {
    "engines": [eng("main", ["c16.cc", "civetfast.cc"], libs=["core", "pull"], link=["ZLIB::ZLIB"], workers=7, defs=["LOCALES"]),
                eng("nozlib", ["c16.cc", "civetfast.cc"], libs=["core", "pull"], link=["ZLIB::ZLIB"], workers=1, defs=["NO_GZIP"],
                    compression=False)],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing: round-trip through HTTP and gzip and a model of the endpoint's counters, "
                 "plus coverage-guided fuzzing",
    "rule": "sequences of requests (new, kept, pipelined, slowly read connections, HTTP/1.0, other methods) with generated "
            "Accept-Encoding headers and bodies up to 37 MB around buffer sizes, in the C or another locale; non-trivial: at least two scrapes of at "
            "least one collectable",
    "assumptions": ["zlib of this system inflates correctly"],
}
CHECKS["C17"] = {
    "engines": [eng("main", ["c17.cc", "civetfast.cc"], libs=["core", "pull"], link=["ZLIB::ZLIB"])],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing of generated and mutated headers against an independent reader of "
                 "credentials, plus coverage-guided fuzzing",
    "rule": "histories of (re)placing authentication on up to four paths and requests with valid, nearly valid, edited, "
            "malformed and missing credentials, other spellings of the path and other methods; non-trivial: at least one "
            "request of a protected path",
    "assumptions": ["realms contain no quotes or control characters", "user names contain no colon",
                    "variants such as another case of the scheme or missing padding may be accepted or rejected"],
}
CHECKS["C18"] = {
    "engines": [eng("schedule", "c18s.cc", "sched", env={"PBT_COLD": "150"}, workers=6, libs=["core", "pull"], link=["ZLIB::ZLIB"]),
                eng("real", ["c18s.cc", "civetfast.cc"], "asan", defs=["REAL"], workers=4, libs=["core", "pull"],
                    link=["ZLIB::ZLIB"], proof="ERROR: AddressSanitizer", tries=40, need=1)],
    "quick": 20, "thorough": 400,
    "technique": "property-based testing over generated schedules on a stand-in for the network, and over generated "
                 "concurrent histories on real connections",
    "rule": "one or two threads register, remove and drop collectables, replace authentication and destroy the exposer while one "
            "to three threads scrape up to three paths with generated credentials; schedule: drawn interleaving; real: real "
            "server, random delays in callbacks; non-trivial: at least one scrape, one change, and overlap between them",
    "assumptions": ["interleavings are sequentially consistent", "src/civetstub.h behaves like civetweb 1.15"],
}
CHECKS["C24"] = {
    "engines": [eng("main", ["c24.cc", "civetfast.cc"], libs=["core", "pull", "push"], link=["ZLIB::ZLIB"], workers=5),
                eng("marathon", ["c24m.cc", "civetfast.cc"], libs=["core", "pull", "push", "util"], link=["ZLIB::ZLIB"], workers=3)],
    "quick": 20, "thorough": 400,
    "technique": "stateful property-based testing: generated histories are repeated, live heap bytes, descriptors and threads "
                 "must not grow with the repetitions",
    "rule": "histories on registry, exposer (scrapes with and without credentials) or gateway (successful and failing requests) "
            "whose objects are destroyed (lifetimes) or brought back to the same state (steady), repeated 6 to 30 times; or a "
            "summary of 12000-24000 random observations; or one operation repeated 800 to 32000 times with other names, values and "
            "credentials each time (marathon); non-trivial: more than one operation, a summary or a marathon",
    "assumptions": ["custom headers and replaced authentication callbacks are kept as long as their gateway or exposer"],
}
CHECKS["C25"] = {
    "engines": [eng("main", ["c25.cc", "civetfast.cc"], libs=["core", "pull"], link=["ZLIB::ZLIB"])],
    "quick": 20, "thorough": 400,
    "technique": "stateful property-based testing over the life cycles of exposers, with stalling clients and collectables",
    "rule": "histories of constructing (free, chosen, reused, occupied and malformed addresses, 1-3 ports, 1-4 threads, both "
            "constructors), destroying, scraping and stalling up to four exposers; non-trivial: more than one exposer, a "
            "refused construction, or stalled threads",
    "assumptions": ["a stalled client or collectable occupies one of the configured threads"],
}
CHECKS["C26"] = {
    "engines": [eng("main", ["c26.cc", "civetfast.cc"], libs=["core", "pull", "push"], link=["ZLIB::ZLIB"], env={"PBT_COLD": "150"})],
    "quick": 15, "thorough": 400, "fuzz": True,
    "technique": "stateful property-based testing with injected allocation failures and throwing callbacks, against a model",
    "rule": "histories on a registry, an exposer or a gateway in which a drawn allocation of an operation fails or a callback "
            "of the user throws; non-trivial: at least one operation failed",
    "assumptions": ["allocations inside of C++ streams, civetweb and libcurl are not failed on purpose in scrapes and pushes"],
}
