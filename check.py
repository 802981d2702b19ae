#!/usr/bin/env python3
"""Driver of the property checks.

  check.py ID                 decide property ID (tier and seed from VERIF_TIER, VERIF_SEED)
  check.py ID --replay FILE   re-execute a replay file
  check.py --setup            sanity check of the framework
  check.py --all              every check, one after another (development)

Builds the harness of the property together with /repo's current tree, runs
random generated cases in parallel workers, confirms and shrinks any failure,
and writes evidence/ID.json.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS, VARIANTS  # noqa: E402

NCPU = 8
CLANG = "/usr/bin/clang" if os.path.exists("/usr/bin/clang++") else "clang"


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def build(pid, eng, fuzz=False):
    name = f"{pid}-{eng['name']}" + ("-fuzz" if fuzz else "")
    bdir = os.path.join(os.environ.get("VP_BUILD", os.path.join(ROOT, "build")), name)
    os.makedirs(bdir, exist_ok=True)
    variant = VARIANTS["fuzz" if fuzz else eng["variant"]]
    libs = eng.get("libs", ["core"])
    rt = list(variant.get("rt", []))
    sources = list(eng["src"]) + ([] if rt else ["pbt.cc"])
    defs = list(eng.get("defs", [])) + list(variant.get("defs", []))
    link = list(eng.get("link", [])) + list(variant.get("link", []))
    args = [
        "cmake", "-G", "Ninja", "-S", ROOT, "-B", bdir,
        "-DCMAKE_C_COMPILER=" + CLANG, "-DCMAKE_CXX_COMPILER=" + CLANG + "++",
        "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_CXX_FLAGS=" + variant["flags"],
        "-DCMAKE_EXE_LINKER_FLAGS=" + variant.get("ldflags", ""),
        "-DVP_REPO=" + REPO,
        "-DVP_PULL=" + ("ON" if "pull" in libs else "OFF"),
        "-DVP_PUSH=" + ("ON" if "push" in libs else "OFF"),
        "-DVP_TARGET=harness",
        "-DVP_SOURCES=" + ";".join(sources),
        "-DVP_LIBS=" + ";".join(libs),
        "-DVP_DEFS=" + ";".join(defs),
        "-DVP_LINK=" + ";".join(link),
        "-DVP_INSTR=" + variant.get("instr", ""),
        "-DVP_RT=" + ";".join(rt),
        "-DVP_STD=" + str(eng.get("std", 11)),
        "-DVP_COMPRESSION=" + ("ON" if eng.get("compression", True) else "OFF"),
    ]
    for attempt in range(2):
        for cmd in (args, ["cmake", "--build", bdir, "-j", str(NCPU), "--target", "harness"]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                break
        if p.returncode == 0:
            break
        if attempt == 1 or cmd is not args:
            raise BuildError(f"{' '.join(cmd)}\n{p.stdout[-6000:]}")
        shutil.rmtree(bdir)  # configured differently before
        os.makedirs(bdir)
    for cand in (os.path.join(bdir, "harness"), os.path.join(bdir, "bin", "harness")):
        if os.path.exists(cand):
            return cand
    raise BuildError("no executable was built")


def env_for(eng):
    env = dict(os.environ)
    env["LC_ALL"] = "C"
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:handle_abort=1:detect_stack_use_after_return=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=87"
    env["TSAN_OPTIONS"] = ("exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:"
                           "suppressions=" + os.path.join(ROOT, "tsan.supp"))
    env["NO_PROXY"] = env["no_proxy"] = "*"
    for v in ("http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"):
        env.pop(v, None)
    env.update(eng.get("env", {}))
    return env


class Engine:
    def __init__(self, pid, eng, tmp):
        self.pid, self.eng, self.tmp = pid, eng, tmp
        self.exe = build(pid, eng)
        self.env = env_for(eng)
        self.hang = eng.get("hang", 60)

    # --- single case -------------------------------------------------------
    def one(self, choices, verbose=False, tag="", timeout=None):
        base = os.path.join(self.tmp, f"one-{self.eng['name']}-{tag}-{time.monotonic_ns()}")
        with open(base, "wb") as f:
            f.write(struct.pack(f"<{len(choices)}Q", *choices))
        out = base + ".used"
        cmd = [self.exe, "one", base, "-v" if verbose else "-q", out]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=self.env, timeout=timeout or self.hang, cwd=self.tmp)
            rc, txt = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, txt = -999, (e.stdout or b"").decode("utf-8", "replace") + f"\nFAIL: no progress within {timeout or self.hang} s\n"
        used = read_shm(out)
        for f in (base, out):
            if os.path.exists(f):
                os.unlink(f)
        return rc, txt, used

    def failing(self, rc):
        return rc not in (0, 98, 99)


def read_shm(path):
    try:
        with open(path, "rb") as f:
            magic, hb, running, count = struct.unpack("<4Q", f.read(32))
            count = min(count, 1 << 18)
            data = f.read(8 * count)
            return list(struct.unpack(f"<{len(data)//8}Q", data))
    except (OSError, struct.error):
        return []


def heartbeat(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<4Q", f.read(32))[1:3]
    except (OSError, struct.error):
        return (0, 0)


def shrink(engine, choices, budget):
    """Greedy minimisation of a failing choice sequence."""
    t0 = time.monotonic()
    best = list(choices)
    workers = engine.eng.get("shrink_jobs", NCPU)
    ex = cf.ThreadPoolExecutor(workers)

    def left():
        return time.monotonic() - t0 < budget

    def first_failing(cands):
        """index-ordered first failing candidate, evaluated in batches"""
        for i in range(0, len(cands), workers):
            if not left():
                return None
            batch = cands[i:i + workers]
            for c, (rc, _, used) in zip(batch, ex.map(lambda c: engine.one(c, tag="s"), batch)):
                if engine.failing(rc):
                    # drop what was not consumed
                    return used if used and len(used) <= len(c) else c
        return None

    def better(c):
        return c is not None and (len(c), c) < (len(best), best)

    progress = True
    while progress and left():
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(best) and left():
                cands = []
                j = i
                while j < len(best) and len(cands) < workers:
                    cands.append(best[:j] + best[j + size:])
                    if any(best[j:j + size]):
                        cands.append(best[:j] + [0] * len(best[j:j + size]) + best[j + size:])
                    j += size
                r = first_failing(cands)
                if better(r):
                    best = r
                    progress = True
                else:
                    i = j
            size //= 2
        # lower single values
        i = 0
        while i < len(best) and left() and len(best) < 3000:
            v = best[i]
            if v:
                cands = [best[:i] + [w] + best[i + 1:]
                         for w in sorted({0, 1, v // 256, v // 16, v // 2, v - 1}) if w < v]
                r = first_failing(cands)
                if better(r):
                    best = r
                    progress = True
                    continue
            i += 1
    ex.shutdown()
    return best


class Worker:
    def __init__(self, engine, idx, seed, secs, max_cases):
        self.engine, self.idx, self.seed, self.secs, self.max_cases = engine, idx, seed, secs, max_cases
        base = os.path.join(engine.tmp, f"{engine.eng['name']}-{idx}")
        self.shm, self.out, self.hashes, self.log = base + ".shm", base + ".json", base + ".hash", base + ".log"
        for f in (self.shm, self.out, self.hashes):
            if os.path.exists(f):
                os.unlink(f)
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen(
            [engine.exe, "run", str(seed), str(secs), str(max_cases), self.shm, self.out, self.hashes],
            stdout=self.logf, stderr=subprocess.STDOUT, env=engine.env, cwd=engine.tmp)
        self.last = (-1, time.monotonic())

    def poll(self):
        """None: running; else ('ok'|'fail'|'crash'|'hang'|'error')"""
        rc = self.p.poll()
        if rc is None:
            hb = heartbeat(self.shm)
            if hb[0] != self.last[0]:
                self.last = (hb[0], time.monotonic())
            elif time.monotonic() - self.last[1] > self.engine.hang + (0 if hb[1] else 30):
                self.p.kill()
                self.p.wait()
                return "hang"
            return None
        if rc == 0:
            return "ok"
        if rc in (98, 99):
            return "error"
        if rc == 1 and os.path.exists(self.out):
            return "fail"
        return "crash"

    def text(self):
        with open(self.log, "rb") as f:
            return f.read()[-20000:].decode("utf-8", "replace")

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def last_line(txt, start="FAIL: "):
    for l in reversed(txt.splitlines()):
        if l.startswith(start):
            return l[len(start):]
    for l in txt.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "Assertion" in l:
            return l.strip()
    return (txt.strip().splitlines() or ["process died"])[-1][:500]


def confirm(engine, w, kind, choices):
    """-> (mode, message) or None.  mode: 'case' or 'history' or 'report'"""
    tries = engine.eng.get("tries", 3)
    need = engine.eng.get("need", 2)
    proof = engine.eng.get("proof")
    if proof and proof in w.text():
        return "report", last_line(w.text())
    fails, msg = 0, ""
    for t in range(tries):
        rc, txt, _ = engine.one(choices, tag="c")
        if engine.failing(rc):
            fails += 1
            msg = last_line(txt)
        if fails >= need:
            return "case", msg
    # state carried over from earlier cases of the same process?
    n = heartbeat(w.shm)[0]
    if kind in ("fail", "crash") and n and not engine.eng.get("nohistory"):
        hits = 0
        for t in range(2):
            w2 = Worker(engine, f"h{t}", w.seed, 600, n)
            t0 = time.monotonic()
            while w2.poll() is None and time.monotonic() - t0 < 120:
                time.sleep(0.05)
            r = w2.poll()
            w2.kill()
            if r in ("fail", "crash") and heartbeat(w2.shm)[0] == n:
                hits += 1
                try:
                    msg = json.load(open(w2.out))["msg"] if r == "fail" else last_line(w2.text())
                except (OSError, ValueError):
                    msg = last_line(w2.text())
        if hits == 2:
            return "history", msg
    return None


def merge(res, o, eng):
    res["cases"] += o["cases"]
    res["discarded"] += o["discarded"]
    res["nontrivial"] += o["nontrivial"]
    for k, v in o["labels"].items():
        res["labels"][k] = res["labels"].get(k, 0) + v
    res["samples"] += o["samples"]


def violation(pid, engine, w, mode, msg, choices, shrink_secs):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    rec = {"property": pid, "engine": engine.eng["name"], "mode": mode, "message": msg}
    if mode == "case":
        small = shrink(engine, choices, shrink_secs)
        rc, txt, _ = engine.one(small, verbose=True, tag="v")
        if not engine.failing(rc):
            small = choices
            rc, txt, _ = engine.one(small, verbose=True, tag="v")
        if engine.failing(rc):
            rec["message"] = last_line(txt)
        rec["choices"] = small
        rec["original_length"] = len(choices)
        rec["output"] = txt[-20000:]
    else:
        rec["choices"] = choices
        rec["seed"] = w.seed
        rec["cases"] = heartbeat(w.shm)[0]
        rec["output"] = w.text()
    h = hashlib.sha1(json.dumps(rec["choices"]).encode() + rec["engine"].encode()).hexdigest()[:10]
    path = os.path.join(ROOT, "replays", f"{pid}-{engine.eng['name']}-{h}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    log(f"--- {pid} {engine.eng['name']}: {rec['message']}")
    log("\n".join(rec["output"].splitlines()[:60]))
    log(f"VIOLATION property={pid} replay={path}")


def fuzz_phase(pid, engine, secs, seed, res):
    """coverage-guided search over the same choice sequences"""
    exe = build(pid, engine.eng, fuzz=True)
    d = os.path.join(engine.tmp, "fuzz")
    procs = []
    for i in range(NCPU):
        c = os.path.join(d, str(i))
        os.makedirs(c, exist_ok=True)
        env = dict(engine.env)
        env["PBT_FUZZ_FAIL"] = os.path.join(d, f"fail{i}")
        lf = open(os.path.join(d, f"log{i}"), "wb")
        procs.append(subprocess.Popen(
            [exe, f"-max_total_time={int(secs)}", f"-seed={seed * 100 + i + 1}", "-max_len=1500", "-len_control=50",
             "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={c}-", "-use_value_profile=1", c],
            stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=d))
    bad = None
    while True:
        alive = [p for p in procs if p.poll() is None]
        for i, p in enumerate(procs):
            f = os.path.join(d, f"fail{i}")
            if p.poll() not in (None, 0) and bad is None:
                choices = None
                if os.path.exists(f):
                    raw = open(f, "rb").read()
                    choices = list(struct.unpack(f"<{len(raw)//8}Q", raw))
                else:
                    arts = [a for a in os.listdir(d) if a.startswith(f"{i}-")]
                    for a in arts:
                        choices = decode_fuzz(open(os.path.join(d, a), "rb").read())
                if choices is not None:
                    n = sum(engine.failing(engine.one(choices, tag="f")[0]) for _ in range(3))
                    if n >= 2:
                        bad = choices
        if bad is not None or not alive:
            break
        time.sleep(0.5)
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    execs = 0
    corpus = sum(len(os.listdir(os.path.join(d, str(i)))) for i in range(NCPU))
    for i in range(NCPU):
        with open(os.path.join(d, f"log{i}"), "rb") as f:
            for l in f.read().decode("utf-8", "replace").splitlines():
                if l.startswith("stat::number_of_executed_units:"):
                    execs += int(l.split()[-1])
    res["fuzz_execs"] = execs
    res["fuzz_corpus"] = corpus
    shutil.rmtree(d, ignore_errors=True)
    return bad


def decode_fuzz(data):
    choices, i = [], 0
    while i < len(data) and len(choices) < 4096:
        b = data[i]
        i += 1
        if b < 0xf0:
            choices.append(b)
        else:
            n, v = 1 + (b & 3) * 2, 0
            for _ in range(n):
                if i < len(data):
                    v = (v << 8) | data[i]
                    i += 1
            choices.append(v & ((1 << 64) - 1))
    return choices


def known_findings(pid, engines):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if not os.path.exists(path):
        return out
    for l in open(path):
        l = l.strip()
        if not l:
            continue
        k = json.loads(l)
        if k.get("property") != pid or k.get("kind") != "known":
            continue
        e = next(e for e in engines if e.eng["name"] == k["engine"])
        p = subprocess.run([e.exe, "known", k["case"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=e.env, timeout=120, cwd=e.tmp)
        txt = p.stdout.decode("utf-8", "replace")
        if p.returncode == 1 and "STILL-FAILS" in txt:
            why = "".join(c if c.isprintable() else "?" for c in last_line(txt, "STILL-FAILS: "))
            log(f"KNOWN-FINDING: property={pid} {k['what']} ({why})")
            out.append(k["case"])
    return out


def run_check(pid, tier, seed):
    t_start = time.monotonic()
    chk = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    os.chmod(tmp, 0o755)
    try:
        return _run_check(pid, chk, tier, seed, tmp, t_start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_check(pid, chk, tier, seed, tmp, t_start):
    with cf.ThreadPoolExecutor(4) as ex:
        engines = list(ex.map(lambda e: Engine(pid, e, tmp), chk["engines"]))
    log(f"{pid}: built in {time.monotonic() - t_start:.1f} s")
    known = known_findings(pid, engines)
    total = float(os.environ.get("VP_SECS") or chk[tier])
    do_fuzz = tier == "thorough" and chk.get("fuzz")
    random_secs = total * 0.5 if do_fuzz else total
    results = {e.eng["name"]: {"cases": 0, "nontrivial": 0, "discarded": 0, "labels": {}, "samples": [], "unconfirmed": 0}
               for e in engines}
    hashes = set()
    workers = []
    for ei, e in enumerate(engines):
        n = e.eng.get("workers", max(1, NCPU // len(engines)))
        for i in range(n):
            ws = (seed * 1000003 + ei * 10007 + i * 101 + 7) & 0x7fffffffffff
            workers.append(Worker(e, i, ws, random_secs, e.eng.get("max_cases", 1 << 60)))
    t0 = time.monotonic()
    found = None
    errors = 0
    while workers and found is None:
        time.sleep(0.1)
        for w in list(workers):
            r = w.poll()
            if r is None:
                continue
            workers.remove(w)
            res = results[w.engine.eng["name"]]
            o = None
            if os.path.exists(w.out):
                try:
                    o = json.load(open(w.out))
                except ValueError:
                    o = None
            if o:
                merge(res, o, w.engine)
            else:
                res["cases"] += heartbeat(w.shm)[0]
            if os.path.exists(w.hashes):
                raw = open(w.hashes, "rb").read()
                salt = hash(w.engine.eng["name"]) & 0xffff
                hashes.update((v, salt) for v in struct.unpack(f"<{len(raw)//8}Q", raw))
            if r == "ok":
                continue
            if r == "error":
                log(f"{pid}: worker could not start\n{w.text()[-2000:]}")
                errors += 1
                if errors > 8:
                    return 2
            else:
                choices = read_shm(w.shm)
                log(f"{pid}: {w.engine.eng['name']} worker {w.idx} reports {r} after {heartbeat(w.shm)[0]} cases; confirming")
                c = confirm(w.engine, w, r, choices)
                if c:
                    found = (w, c, choices, r)
                    break
                res["unconfirmed"] += 1
                log(f"{pid}: not reproducible, ignored:\n{w.text()[-3000:]}\n{(o or {}).get('msg', '')}")
            left = random_secs - (time.monotonic() - t0)
            if left > 1:
                workers.append(Worker(w.engine, f"{w.idx}r", w.seed + 7919, left, w.max_cases))
    for w in workers:
        w.kill()
    status = 0
    if found:
        w, (mode, msg), choices, r = found
        budget = 5 if r == "hang" else (25 if tier == "quick" else 90)
        if os.environ.get("VP_NOSHRINK"):  # development
            budget = 0
        violation(pid, w.engine, w, mode, msg, choices, min(budget, w.engine.eng.get("shrink", budget)))
        status = 1
    elif do_fuzz:
        e = engines[0]
        bad = fuzz_phase(pid, e, total * 0.5, seed, results[e.eng["name"]])
        if bad is not None:
            violation(pid, e, None, "case", "found by coverage-guided search", bad, 90)
            status = 1
    cases = sum(r["cases"] for r in results.values()) + sum(r.get("fuzz_execs", 0) for r in results.values())
    samples = []
    for n, r in results.items():
        samples += [f"[{n}] {s}" for s in r["samples"][-3:]]
    if status == 0 and not samples:
        samples = ["(no non-trivial case was completed)"]
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": len(hashes),
        "rule": chk["rule"],
        "samples": [s[:3000] for s in samples[:8]] or ["see replay"],
        "engines": {n: {k: v for k, v in r.items() if k != "samples"} for n, r in results.items()},
        "known_findings_reproduced": known,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.monotonic() - t_start, 2), "violations": status}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{pid}: {tier} seed={seed} cases={cases} distinct_nontrivial={len(hashes)} "
        f"unconfirmed={sum(r['unconfirmed'] for r in results.values())} wall={ev['wall_s']} s "
        f"{'VIOLATED' if status else 'ok'}")
    return status


def replay(pid, path):
    rec = json.load(open(path))
    eng = next(e for e in CHECKS[pid]["engines"] if e["name"] == rec["engine"])
    tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    try:
        e = Engine(pid, eng, tmp)
        if rec["mode"] == "case":
            rc, txt, _ = e.one(rec["choices"], verbose=True)
            log(txt)
            return 1 if e.failing(rc) else 0
        w = Worker(e, 0, rec["seed"], 600, rec["cases"])
        while w.poll() is None:
            time.sleep(0.1)
        r = w.poll()
        log(r, w.text())
        return 0 if r == "ok" else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    for t in ("cmake", "ninja", "clang++"):
        if not shutil.which(t):
            log(f"missing tool {t}")
            return 1
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    props = {json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()}
    claimed = {c["property"] for c in man["checks"]}
    na = {c["property"] for c in man.get("not_applicable", [])}
    if claimed | na != props or claimed - set(CHECKS):
        log(f"manifest and properties disagree: {sorted(claimed ^ props)}")
        return 1
    log(f"{len(claimed)} checks; every check builds its own harness from {REPO}")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.setup:
        return setup()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        if a.all:
            rc = 0
            for pid in CHECKS:
                r = run_check(pid, tier, a.seed)
                rc = rc or r
            return rc
        if a.replay:
            return replay(a.id, a.replay)
        return run_check(a.id, tier, a.seed)
    except BuildError as e:
        log(f"build failed\n{e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
