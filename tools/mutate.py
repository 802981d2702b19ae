#!/usr/bin/env python3
"""Development: mutation testing of the checks.

mutate.py [--list] [--only REGEX] [--out FILE] [--secs N] [--shard I/N]
Generates syntactic mutants of /repo's sources, one at a time, in a scratch
copy and runs the checks responsible for the file; survivors are run against
the existing tests by --tests FILE (reads survivors).
"""
import argparse, os, re, subprocess, sys, time, random, shutil, json

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAP = [
    ("core/src/text_serializer.cc", ["C01", "C03", "C02"]),
    ("core/src/serializer.cc", ["C03"]),
    ("core/src/counter.cc", ["C04"]), ("core/include/prometheus/counter.h", ["C04"]),
    ("core/src/gauge.cc", ["C05", "C04"]), ("core/include/prometheus/gauge.h", ["C05"]),
    ("core/src/histogram.cc", ["C06", "C07"]),
    ("core/src/info.cc", ["C11", "C01"]),
    ("core/src/summary.cc", ["C10", "C07", "C09"]), ("core/include/prometheus/summary.h", ["C10", "C09"]),
    ("core/src/detail/ckms_quantiles.cc", ["C08", "C09", "C24"]),
    ("core/src/detail/time_window_quantiles.cc", ["C09", "C10"]),
    ("core/src/family.cc", ["C11", "C12", "C14"]), ("core/include/prometheus/family.h", ["C11"]),
    ("core/src/registry.cc", ["C13", "C14"]), ("core/src/detail/builder.cc", ["C13"]),
    ("core/src/check_names.cc", ["C12"]), ("core/src/detail/utils.cc", ["C11"]),
    ("core/include/prometheus/detail/builder.h", ["C13"]),
    ("pull/src/basic_auth.cc", ["C17", "C18"]), ("pull/src/endpoint.cc", ["C15", "C18", "C17"]),
    ("pull/src/exposer.cc", ["C15", "C18", "C17"]), ("pull/src/handler.cc", ["C16", "C15", "C18"]),
    ("pull/src/metrics_collector.cc", ["C15", "C16"]),
    ("push/src/gateway.cc", ["C21", "C22", "C20", "C23", "C24"]), ("push/src/detail/curl_wrapper.cc", ["C21", "C22", "C23", "C24"]),
    ("push/src/detail/label_encoder.cc", ["C20"]),
    ("util/include/prometheus/detail/base64.h", ["C19"]),
]


def mutants(path):
    src = open("/repo/" + path).read()
    lines = src.split("\n")
    out = []

    def add(i, new, op):
        if new != lines[i]:
            out.append((path, i, new, op))
    incomment = False
    for i, l in enumerate(lines):
        st = l.strip()
        if st.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in st:
                incomment = False
            continue
        if not st or st.startswith("//") or st.startswith("#") or st.startswith("namespace") or st.startswith("template") or st.startswith("using") or st.startswith("///"):
            continue
        code = l.split(" // ")[0]
        # string literals are left alone
        spans = [m.span() for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', code)]

        def free(a):
            return not any(s <= a < e for s, e in spans)
        for pat, reps, op in [
            (r"(?<![<>\-=!])<=(?!=)", ["<", ">="], "rel"), (r"(?<![<>\-=!])>=(?!=)", [">", "<="], "rel"),
            (r"(?<=\s)<(?=\s)", ["<=", ">"], "rel"), (r"(?<=\s)>(?=\s)", [">=", "<"], "rel"),
            (r"==", ["!="], "eq"), (r"!=", ["=="], "eq"),
            (r"&&", ["||"], "logic"), (r"\|\|", ["&&"], "logic"),
            (r"(?<=\s)\+(?=\s)", ["-"], "arith"), (r"(?<=\s)-(?=\s)", ["+"], "arith"),
            (r"(?<=\s)\*(?=\s)", ["/"], "arith"), (r"(?<=\s)/(?=\s)", ["*"], "arith"),
            (r"\+\+", ["--"], "inc"), (r"--", ["++"], "inc"), (r"\+=", ["-="], "arith"), (r"-=", ["+="], "arith"),
            (r"\btrue\b", ["false"], "bool"), (r"\bfalse\b", ["true"], "bool"),
            (r"(?<!!)!(?=[\w(])", [""], "not"),
            (r"\bbegin\(\)", ["end()"], "range"), (r"\bfront\(\)", ["back()"], "range"), (r"\bback\(\)", ["front()"], "range"),
            (r"memory_order_acq_rel|memory_order_acquire|memory_order_release|memory_order_seq_cst", ["memory_order_relaxed"], "order"),
        ]:
            for m in re.finditer(pat, code):
                if not free(m.start()):
                    continue
                for r in reps:
                    add(i, code[:m.start()] + r + code[m.end():], op)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.x])", code):
            if free(m.start()) and "static_cast<std::size_t>" not in code:
                n = int(m.group(1))
                for r in {n + 1, max(0, n - 1)} - {n}:
                    add(i, code[:m.start()] + str(r) + code[m.end():], "const")
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?![\w])", code):
            if free(m.start()):
                add(i, code[:m.start()] + repr(float(m.group(1)) + 0.5) + code[m.end():], "const")
        for m in re.finditer(r"(?<![\w.])0x([0-9A-Fa-f]+)", code):
            if free(m.start()):
                add(i, code[:m.start()] + hex(int(m.group(1), 16) + 1) + code[m.end():], "const")
        for s, e in spans:
            t = code[s:e]
            if len(t) > 2 and t[0] == '"' and not t.startswith('"\\') and "throw" not in code and "invalid_argument" not in code:
                add(i, code[:s] + '"' + ("X" if t[1] != "X" else "Y") + t[2:] + code[e:], "string")
            if len(t) == 3 and t[0] == "'":
                add(i, code[:s] + "'" + chr(ord(t[1]) + 1) + "'" + code[e:], "char")
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", code)
        if m:
            add(i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "cond")
            add(i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "cond")
            add(i, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "cond")
        if st.endswith(";") and not st.startswith("return") and not st.startswith("}") and not st.startswith("break") \
                and re.match(r"^[\w:<>.\->\[\]*()& ]+", st) and lines[i - 1].strip().endswith((";", "{", "}", ":")):
            if "lock_guard" in st or re.match(r"^[\w.\->:\[\]]+\(.*\);$", st) or re.match(r"^[\w.\->*\[\]()]+ *[-+|]?= .*;$", st) \
                    or re.match(r"^[+-]{2}\w+;$", st) or st.startswith("throw") or st.startswith("out <<"):
                add(i, re.match(r"^\s*", l).group() + ";", "drop")
        if st in ("break;", "continue;"):
            add(i, re.match(r"^\s*", l).group() + ";", "drop")
        if st.startswith("return ") and st.endswith(";") and "*" not in st:
            pass
    return out


def sh(cmd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=env, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--out", default="/tmp/t/mut.jsonl")
    ap.add_argument("--secs", default="5")
    ap.add_argument("--tests", default="")
    a = ap.parse_args()
    if a.tests:
        return tests(a.tests)
    todo = []
    for f, checks in MAP:
        if re.search(a.only, f):
            todo += [(m, checks) for m in mutants(f)]
    if a.list:
        print(len(todo))
        return
    random.Random(5).shuffle(todo)
    W, B = "/tmp/mutw", "/tmp/mutb"
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    if not os.path.exists(W):
        sh(f"git clone -q /repo {W}")
    sh(f"git -C {W} fetch -q; git -C {W} checkout -q -f $(git -C /repo rev-parse HEAD)")
    env = dict(os.environ, VP_REPO=W, VP_BUILD=B, VP_SECS=a.secs, VERIF_SEED="1", VP_NOSHRINK="1")
    for (f, i, new, op), checks in todo:
        if (f, i + 1, new) in done:
            continue
        src = open("/repo/" + f).read()
        lines = src.split("\n")
        old = lines[i]
        lines[i] = new
        open(f"{W}/{f}", "w").write("\n".join(lines))
        res, by = "SURVIVED", ""
        for c in checks:
            rc, out = sh(f"python3 {V}/check.py {c}", env=env)
            if rc == 2 and "build failed" in out:
                res = "nobuild"
                break
            if rc == 1 and "VIOLATION" in out:
                res, by = "killed", c
                break
            if rc != 0:
                res, by = f"rc={rc}", c + " " + out[-300:]
                break
        open(f"{W}/{f}", "w").write(src)
        with open(a.out, "a") as o:
            o.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new, "op": op, "res": res, "by": by}) + "\n")
        print(res, by[:60], f, i + 1, op, "|", old.strip(), "=>", new.strip(), flush=True)
        for r in os.listdir(V + "/replays") if os.path.isdir(V + "/replays") else []:
            os.unlink(V + "/replays/" + r)


def tests(path):
    """which survivors do the existing tests kill?"""
    W = "/tmp/plant"
    rows = [json.loads(l) for l in open(path)]
    for d in rows:
        if d["res"] in ("killed", "nobuild"):
            continue
        f = d["file"]
        src = open("/repo/" + f).read()
        lines = src.split("\n")
        lines[d["line"] - 1] = d["new"]
        open(f"{W}/{f}", "w").write("\n".join(lines))
        rc, out = sh(f"cmake --build {W}/_build -j8")
        if rc:
            t = "nobuild"
        else:
            rc, out = sh(f"ctest --test-dir {W}/_build -LE Benchmark -j8 --timeout 120")
            t = "tests pass" if rc == 0 else "tests fail"
        open(f"{W}/{f}", "w").write(src)
        print(t, d["res"], f, d["line"], "|", d["old"], "=>", d["new"].strip(), flush=True)
    sh(f"git -C {W} checkout -q -f HEAD; cmake --build {W}/_build -j8")


main()
