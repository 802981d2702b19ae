#!/usr/bin/env python3
"""Development: confirm seeded bugs.  plant.py ID... | --all
For each: applies to HEAD, builds, demo passes before and fails after, the
stable tests pass.  Works in /tmp/plant (a scratch copy)."""
import json, os, shutil, subprocess, sys

S = "/verif/seeded"
W = "/tmp/plant"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    r = sh(f"cmake --build {W}/_build -j8")
    return r.returncode == 0, r.stdout


def prepare():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(W):
        sh(f"git clone -q /repo {W}")
    sh(f"git -C {W} fetch -q && git -C {W} checkout -q -f {head}")
    if not os.path.exists(W + "/_build/build.ninja"):
        r = sh(f"CC=gcc CXX=g++ cmake -S {W} -B {W}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "
               "'-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g' -DENABLE_TESTING=ON -DUSE_THIRDPARTY_LIBRARIES=OFF "
               "-DENABLE_PULL=ON -DENABLE_PUSH=ON -DENABLE_COMPRESSION=ON")
        assert r.returncode == 0, r.stdout
    ok, out = build()
    assert ok, out


def demo(i, n=1):
    rcs = []
    for _ in range(n):
        try:
            r = sh(f"bash {S}/{i}/demo.sh", cwd=W, timeout=300)
            rcs.append(r.returncode)
        except subprocess.TimeoutExpired:
            rcs.append("timeout")
    return rcs, r.stdout[-1500:]


def main(ids):
    prepare()
    good, bad = [], []
    for i in ids:
        why = None
        build()
        rc, out = demo(i, 2)
        if any(rc):
            why = f"demo fails unpatched {rc}\n{out}"
        else:
            r = sh(f"git -C {W} apply {S}/{i}/patch.diff")
            if r.returncode:
                why = "does not apply " + r.stdout
            else:
                ok, out = build()
                if not ok:
                    why = "does not build\n" + out[-3000:]
                else:
                    rc, out = demo(i, 3)
                    if not all(rc):
                        why = f"demo passes patched {rc}\n{out}"
                    elif "-q" not in sys.argv:
                        r = sh(f"ctest --test-dir {W}/_build -LE Benchmark -j8 --timeout 120 --output-on-failure")
                        if r.returncode:
                            why = "tests fail\n" + "\n".join(l for l in r.stdout.splitlines() if "Failure" in l or "FAILED" in l)[:2000]
                            why += r.stdout[-600:]
                sh(f"git -C {W} checkout -q -f HEAD")
        print(i, "ok" if not why else "BAD " + why, flush=True)
        (bad if why else good).append(i)
    build()
    print(len(good), "good", "bad:", bad)


args = [a for a in sys.argv[1:] if not a.startswith("-")]
if "--all" in sys.argv:
    args = sorted(os.listdir(S))
main(args)
