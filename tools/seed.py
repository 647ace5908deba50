#!/usr/bin/env python3
"""seed.py SPEC.py... : build planted bugs from specs.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Rust source of a
program that exits non-zero when the property is broken), optionally EXTERN (crates the demo
links besides chopper). Each is confirmed in a scratch copy: it compiles, the stable tests pass,
the demo passes without it and fails with it. Only then is it written to seeded/ID.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEED_SCRATCH", "/tmp/seed")
R = S + "/repo"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; run in the repository after its build
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
ext=""
for c in %s; do ext="$ext --extern $c=$(ls -t target/debug/deps/lib$c-*.rlib | head -1)"; done
rustc --edition 2018 -A warnings -o "$d/demo" "$here/demo.rs" -L dependency=target/debug/deps \\
    --extern chopper="$(ls -t target/debug/deps/libchopper-*.rlib | head -1)" $ext || exit 1
repo=$(pwd)
mkdir "$d/cwd" && cd "$d/cwd" || exit 1
REPO="$repo" timeout 120 "$d/demo"
"""
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")

def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=R, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)

def prepare():
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, universal_newlines=True).stdout
    if os.path.isdir(R):
        h = sh("git rev-parse HEAD").stdout
        if h == head:
            sh("git checkout -q -- .")
            return
        shutil.rmtree(R)
    os.makedirs(S, exist_ok=True)
    subprocess.run(["rsync", "-a", "--exclude", "/chop/target", "--exclude", "/util/*/target", "/repo/", R + "/"]).returncode == 0 or \
        subprocess.run(["cp", "-a", "/repo", R])
    sh("git checkout -q -- .")

def build():
    r = sh("cargo test --no-run --offline")
    return r.returncode == 0, r.stdout

def tests():
    r = sh("cargo test --no-fail-fast --offline -- --test-threads 8")
    open(S + "/t.log", "w").write(r.stdout)
    subprocess.run(["python3", "/opt/vp/results.py", S + "/o.json", "cargo:" + S + "/t.log"], stdout=subprocess.DEVNULL)
    p = set(json.load(open(S + "/o.json"))["passed"])
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh("git checkout -q -- tests")
    return b - p

def main():
    prepare()
    for spec in sys.argv[1:]:
        g = {}
        exec(compile(open(spec).read(), spec, "exec"), g)
        d = S + "/cand"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH % " ".join(g.get("EXTERN", [])))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(g["DEMO"].lstrip())
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        ok, out = build()
        r = sh("bash %s/demo.sh" % d)
        if r.returncode != 0:
            print(g["ID"], "DEMO FAILS ON CLEAN TREE"); print(r.stdout[-3000:]); continue
        bad = False
        for f, old, new in g["EDITS"]:
            s = open(R + "/" + f).read()
            if s.count(old) != 1:
                print(g["ID"], "edit matches", s.count(old), "times in", f); bad = True; break
            open(R + "/" + f, "w").write(s.replace(old, new))
        if bad:
            sh("git checkout -q -- ."); continue
        open(d + "/patch.diff", "w").write(sh("git diff -- src").stdout)
        ok, out = build()
        if not ok:
            print(g["ID"], "does not build"); print(out[-3000:]); sh("git checkout -q -- ."); continue
        lost = tests()
        r = sh("bash %s/demo.sh" % d)
        sh("git checkout -q -- .")
        if lost:
            print(g["ID"], "TESTS CATCH IT", lost); continue
        if r.returncode == 0:
            print(g["ID"], "DEMO PASSES WITH THE CHANGE"); print(r.stdout[-2000:]); continue
        t = ROOT + "/seeded/" + g["ID"]
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        print(g["ID"], "kept; demo says:", r.stdout.strip().splitlines()[-1:] )
main()
