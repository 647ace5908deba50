#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree
check.py --build [MODULE...]            build everything (setup)
check.py --replay FILE                  replay a recorded violation natively

Exit 0: held on everything explored; 1: VIOLATION line; anything else: no answer."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS, COMMON_ASSUMPTIONS

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
OUT = os.path.join(HERE, "out")
CORES = os.cpu_count() or 4
TARGET = "x86_64-unknown-linux-gnu"
RUST_ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS"))}
RUST_ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME=os.environ.get("HOME", "/root"))
RUST_ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + RUST_ENV.get("PATH", "/usr/bin:/bin")


def say(*a):
    print(*a, flush=True)


def cargo(args, cwd, env, timeout=600):
    e = dict(RUST_ENV)
    e.update(env)
    e.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p


def harness_dir(stub):
    """the harness crate, or a copy of it without the HTTP stand-in"""
    src = os.path.join(HERE, "harness")
    if stub:
        return src
    dst = os.path.join(BUILD, "harness-nostub")
    return dst


def prepare_nostub():
    src = os.path.join(HERE, "harness")
    dst = os.path.join(BUILD, "harness-nostub")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read()
    t = re.sub(r'\[patch\.crates-io\]\n(#.*\n)?ureq = .*\n', '', t)
    open(p, "w").write(t)
    shutil.copy(os.path.join(src, "Cargo.nostub.lock"), os.path.join(dst, "Cargo.lock"))


def build_symex():
    p = cargo(["build", "--release", "--offline"], os.path.join(HERE, "symex"),
              {"CARGO_TARGET_DIR": os.path.join(BUILD, "symex")})
    if p.returncode:
        raise RuntimeError("symex does not build:\n" + p.stderr[-3000:])
    return os.path.join(BUILD, "symex/release/symex")


def build_ir(mods, stub, threads):
    d = harness_dir(stub)
    flags = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=no"
    if threads:
        flags = "-Zthreads=%d " % threads + flags
    p = cargo(["build", "--offline", "--locked", "--release", "--lib", "--features", ",".join(mods),
               "-Zbuild-std=std,panic_abort", "--target", TARGET, "--message-format=json"], d,
              {"CARGO_TARGET_DIR": os.path.join(BUILD, "ir" if stub else "ir-nostub"), "RUSTFLAGS": flags,
               "RUSTC_WRAPPER": os.path.join(HERE, "tools/rustc-wrap.sh")})
    if p.returncode:
        return None, p.stdout[-2000:] + p.stderr[-3000:]
    lls = []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if "/%s/" % TARGET not in f:
                continue
            b = os.path.basename(f)
            if b.startswith("lib") and b.endswith((".rmeta", ".rlib")):
                stem = b[3:].rsplit(".", 1)[0]
                for dd in {os.path.dirname(f), os.path.join(os.path.dirname(f), "deps")}:
                    lls += glob.glob(os.path.join(dd, stem + ".ll")) + glob.glob(os.path.join(dd, stem + ".*.ll"))
    lls = sorted(set(lls))
    ld = os.path.join(BUILD, "ll")
    shutil.rmtree(ld, ignore_errors=True)
    os.makedirs(ld)
    for f in lls:
        os.symlink(f, os.path.join(ld, os.path.basename(f)))
    if len(lls) < 20:
        return None, "only %d IR files" % len(lls)
    return ld, ""


def build_native(mods, stub, threads):
    d = harness_dir(stub)
    td = os.path.join(BUILD, "nat" if stub else "nat-nostub")
    env = {"CARGO_TARGET_DIR": td}
    if threads:
        env["RUSTFLAGS"] = "-Zthreads=%d" % threads
    p = cargo(["build", "--offline", "--locked", "--bin", "replay", "--features", ",".join(mods)], d, env)
    if p.returncode:
        return None, p.stderr[-3000:]
    return os.path.join(td, "debug/replay"), ""


def build(mods, client=False):
    """client: with the real HTTP client in place of its stand-in"""
    os.makedirs(BUILD, exist_ok=True)
    err = ""
    for stub, threads in ((False, 8), (False, 0)) if client else ((True, 8), (True, 0), (False, 0)):
        if not stub:
            prepare_nostub()
        with ThreadPoolExecutor(3) as ex:
            a = ex.submit(build_symex)
            b = ex.submit(build_ir, mods, stub, threads)
            c = ex.submit(build_native, mods, stub, min(threads, 4))
            sx = a.result()
            ll, e1 = b.result()
            nat, e2 = c.result()
        if ll and nat:
            return sx, ll, nat
        err = e1 or e2
    raise RuntimeError("harness does not build on this tree:\n" + err)


def native(nat, harness, inputs, timeout=20, huge=None):
    """replay one assignment: outcome, observations, covers, failed checks, info"""
    with tempfile.TemporaryDirectory(prefix="replay") as td:
        f = os.path.join(td, "in")
        with open(f, "w") as h:
            h.write("".join("%s %d\n" % (n, v) for n, v in inputs))
        env = {"PATH": "/usr/bin:/bin", "TMPDIR": td, "SX_DIR": td}
        if huge:
            env["SX_HUGE"] = str(huge)
        w = os.path.join(td, "w")
        os.mkdir(w)
        try:
            p = subprocess.run([nat, harness, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               cwd=w, env=env, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return dict(outcome="hang", obs=[], covers=[], fails=[], info=[])
    o = dict(outcome="killed %d" % p.returncode, obs=[], covers=[], fails=[], info=[])
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        k, _, v = line.partition(" ")
        if k == "OUTCOME":
            o["outcome"] = v
        elif k == "ALLOWED":
            o["allowed"] = True
        elif k == "OBS":
            o["obs"].append(v)
        elif k == "COVER":
            o["covers"].append(v)
        elif k == "FAIL":
            o["fails"].append(v)
        elif k == "INFO":
            o["info"].append(v)
    return o


def bad(o, allow):
    """what is wrong with a native run, or None"""
    if o["fails"]:
        return "fails: " + o["fails"][0]
    oc = o["outcome"].split(" ")[0]
    if oc in ("ok", "assume") or oc in allow or oc in ("exit", "exit0") and o.get("allowed"):
        return None
    return o["outcome"] + (" (" + o["info"][0] + ")" if o["info"] else "")


def known_findings(prop):
    r = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: "):
                d = json.loads(l[9:])
                if d["property"] == prop:
                    r.append(d)
    return r


def matches(k, harness, msg, inputs):
    if not re.search(k.get("harness", ""), harness) or not re.search(k["fails"], msg):
        return False
    if "where" in k:
        env = {n: v for n, v in inputs}
        return bool(eval(k["where"], {"__builtins__": {"len": len, "any": any, "all": all, "range": range}}, {"i": env, "g": lambda n: env.get(n, 0)}))
    return True


def run_harness(sx, ll, h, tier, seed, workers, deadline, texts=False):
    td = tempfile.mkdtemp(prefix="symex")
    out = os.path.join(td, "o")
    t = h.get("time_t", 4 * h.get("time", 60)) if tier == "thorough" else h.get("time", 60)
    t = int(max(5, min(t, deadline - time.time())))
    cmd = [sx, "--ll-dir", ll, "--entry", h["name"], "--out", out, "--workers", str(workers), "--time", str(t),
           "--seed", str(seed), "--samples", str(h.get("samples", 6))]
    if "steps" in h:
        cmd += ["--steps", str(h["steps"])]
    if tier == "thorough":
        cmd += ["--xcheck"]
    if texts:
        cmd += ["--texts"]
    t0 = time.time()
    err = ""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t + 120)
        err = p.stderr.decode("utf-8", "replace")[:1500]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -1
    r = dict(name=h["name"], rc=rc, stderr=err, wall=round(time.time() - t0, 2), ends={}, problems={}, covers={},
             violations=[], samples=[], funcs=set(), z3_version="")
    for f in glob.glob(out + ".*"):
        try:
            d = json.load(open(f))
        except ValueError:
            r["rc"] = -2
            continue
        for k, v in d.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    r[k][a] = r[k].get(a, 0) + b
            elif k in ("violations", "samples"):
                r[k] += v
            elif k == "funcs":
                r[k] |= set(v)
            elif k in ("z3_version",):
                r[k] = v
            elif k in ("max_forks", "z3_max_ms", "nfuncs"):
                r[k] = max(r.get(k, 0), v)
            else:
                r[k] = r.get(k, 0) + v
    if os.path.exists(out):
        d = json.load(open(out))
        r["failed_workers"] = d["failed_workers"]
        r["load_ms"] = d["load_ms"]
    else:
        r["failed_workers"] = 99
    shutil.rmtree(td, ignore_errors=True)
    return r


def demangle(names):
    """the names of functions as they are written in Rust"""
    names = sorted(names)
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30)
        o = p.stdout.split("\n")
        if p.returncode == 0 and len(o) >= len(names):
            return sorted(set(re.sub(r"\[[0-9a-f]{16}\]|::h[0-9a-f]{16}$", "", n) for n in o[:len(names)] if n))
    except (OSError, subprocess.SubprocessError):
        pass
    return names


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = 840 if tier == "quick" else 3300
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(HERE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sx, ll, nat = build(P["mods"], P.get("client", False))
    t_build = time.time() - t0
    say("built in %.1f s" % t_build)
    kf = known_findings(prop)
    known_hit = {}
    violations = []
    trouble = []     # no answer
    partial = []     # explored less than planned
    validated = 0
    samples_out = []
    tot = {}
    funcs = set()
    per = []
    zver = ""
    for f in glob.glob(os.path.join(OUT, prop + "-*")):
        os.remove(f)
    for h in P["harnesses"]:
        if h.get("tier") == "thorough" and tier != "thorough":
            continue
        left = t0 + budget - time.time()
        if left < 15:
            partial.append("%s not started: out of time" % h["name"])
            continue
        # a number shown in a text that does not matter to the harness stands for any number; where that
        # turns out to matter after all (an answer the native build does not confirm), every digit is followed
        for texts in (False, True):
            r = run_harness(sx, ll, h, tier, seed, h.get("workers", CORES), t0 + budget - 10, texts)
            kept = len(trouble), len(partial), len(violations), validated
            differs = False
            allow = h.get("allow", ())
            zver = r["z3_version"] or zver
            if r["rc"] == -1:
                partial.append("%s: stopped, its time ran out" % h["name"])
            elif r["failed_workers"] or r["rc"] != 0:
                trouble.append("%s: engine stopped (rc %s, %s workers failed) %s" % (h["name"], r["rc"], r["failed_workers"], r["stderr"][:700]))
            # violations, confirmed against the native build
            for v in r["violations"]:
                inp = v["rec"]["inputs"]
                huge = (1 << 20) if v["rec"]["outcome"] == "huge-alloc" else None
                o = native(nat, h["name"], inp, huge=huge)
                b = bad(o, allow)
                if b is None:
                    differs = True
                    trouble.append("%s: counterexample does not reproduce: %s %s (native %s)" % (h["name"], v["msg"], inp, o["outcome"]))
                    continue
                k = next((k for k in kf if matches(k, h["name"], b, inp)), None)
                if k:
                    known_hit[k["id"]] = k
                    continue
                violations.append((h["name"], b, inp, v["msg"]))
            if r.get("leftover"):
                partial.append("%s: %d paths unexplored when its time ran out" % (h["name"], r["leftover"]))
            for p, n in r["problems"].items():
                partial.append("%s: %s (%d)" % (h["name"], p, n))
            # models of finished paths, replayed against the native build
            rnd = random.Random(seed)
            ss = r["samples"]
            rnd.shuffle(ss)
            ss = ss[:h.get("validate", 40)]
            with ThreadPoolExecutor(CORES) as ex:
                res = list(ex.map(lambda s: native(nat, h["name"], s["inputs"]), ss))
            for s, o in zip(ss, res):
                oc = o["outcome"].split(" ")[0]
                if oc != s["outcome"] or o["obs"] != s["obs"] or o["fails"]:
                    differs = True
                    trouble.append("%s: engine and native run differ on %s: %s/%s obs %s/%s fails %s" %
                                   (h["name"], s["inputs"], s["outcome"], o["outcome"], s["obs"][:8], o["obs"][:8], o["fails"]))
                else:
                    validated += 1
            if texts or not differs or len(violations) > kept[2] or time.time() > t0 + budget - 40:
                break
            say("%-26s again with every digit of the texts it shows" % h["name"])
            del trouble[kept[0]:], partial[kept[1]:]
            validated = kept[3]
        if ss:
            samples_out.append(dict(harness=h["name"], inputs={n: v for n, v in ss[0]["inputs"]}, outcome=ss[0]["outcome"], observed=ss[0]["obs"][:12]))
        missing = [c for c in h.get("covers", ()) if c not in r["covers"]]
        late = r.get("leftover") or r["rc"] == -1
        if missing and not r["violations"]:
            (partial if late else trouble).append("%s: not reached: %s" % (h["name"], ", ".join(missing)))
        if not r.get("paths") and not late:
            trouble.append("%s: no path finished" % h["name"])
        for k in ("paths", "steps", "forks", "obligations", "obl_z3", "z3_calls", "z3_sat", "z3_unsat", "z3_unknown", "z3_ms", "dom_decided", "cache_hits", "confirmed", "xchecked"):
            tot[k] = tot.get(k, 0) + r.get(k, 0)
        tot["z3_max_ms"] = max(tot.get("z3_max_ms", 0), r.get("z3_max_ms", 0))
        funcs |= r["funcs"]
        per.append(dict(harness=h["name"], bounds=h.get("bounds", ""), paths=r.get("paths", 0), branch_decisions=r.get("forks", 0),
                        instructions=r.get("steps", 0), ends=r["ends"], assertions=r.get("obligations", 0), solver_queries=r.get("z3_calls", 0),
                        solver_ms=r.get("z3_ms", 0), exhausted=not r.get("leftover") and not r["problems"], wall_s=r["wall"]))
        say("%-26s %6d paths %9d instr %6d asserts %6d queries %5.1f s%s" % (h["name"], r.get("paths", 0), r.get("steps", 0), r.get("obligations", 0),
            r.get("z3_calls", 0), r["wall"], "" if not r["violations"] else "  %d counterexamples" % len(r["violations"])))
        if violations and tier == "quick":
            break
    if not tot.get("paths"):
        trouble.append("nothing was explored")
    # report
    lines = []
    for i, (hn, b, inp, msg) in enumerate(violations[:10]):
        f = os.path.join(OUT, "%s-%d.json" % (prop, i))
        json.dump(dict(property=prop, harness=hn, mods=P["mods"], what=b, inputs=inp, how="python3 check.py --replay " + f), open(f, "w"), indent=1)
        lines.append((f, hn, b, inp))
    fnames = demangle(funcs)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot.get("paths", 0), transitions=tot.get("forks", 0), traces_validated_against_impl=validated,
                  samples=samples_out or ["none"], exhaustive=not partial and not trouble,
                  what_the_counts_mean="states: symbolic paths run to their end; transitions: branch decisions with both sides open; "
                                       "traces validated: solver models of finished paths replayed in the native build with equal outcome and observations",
                  ir_instructions=tot.get("steps", 0), assertions_decided=tot.get("obligations", 0), assertions_sent_to_solver=tot.get("obl_z3", 0),
                  solver=dict(name="z3", version=zver, queries=tot.get("z3_calls", 0), sat=tot.get("z3_sat", 0), unsat=tot.get("z3_unsat", 0),
                              unknown=tot.get("z3_unknown", 0), total_ms=tot.get("z3_ms", 0), longest_ms=tot.get("z3_max_ms", 0),
                              decided_by_exact_byte_domains=tot.get("dom_decided", 0), cross_checked=tot.get("xchecked", 0),
                              path_conditions_confirmed=tot.get("confirmed", 0)),
                  functions_encoded=[f for f in fnames if f.startswith(("chopper::", "<chopper::"))], functions_encoded_count=len(fnames),
                  harnesses=per, bounds=P.get("bounds", ""), partial=partial[:20], no_answer=trouble[:20], build_s=round(t_build, 1),
                  known_findings_seen=sorted(known_hit)),
              assumptions=COMMON_ASSUMPTIONS + P.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_hit.values():
        say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for l in partial[:20]:
        say("PARTIAL " + l)
    for l in trouble[:20]:
        say("NO-ANSWER " + l)
    if lines:
        for f, hn, b, inp in lines:
            say("VIOLATION property=%s replay=%s" % (prop, f))
            say("  %s: %s\n  with %s" % (hn, b, " ".join("%s=%d" % (n, v) for n, v in inp)[:400]))
        return 1
    if trouble:
        return 3
    say("held: %d paths, %d assertions, %d solver queries, %d models replayed, %.1f s" % (tot.get("paths", 0), tot.get("obligations", 0), tot.get("z3_calls", 0), validated, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for client in (True, False):
            mods = sorted({m for p in PROPS.values() for m in p["mods"] if p.get("client", False) == client})
            if mods:
                build(mods, client)
        say("built")
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        _, _, nat = build(d["mods"], d.get("client", False))
        o = native(nat, d["harness"], d["inputs"], huge=(1 << 20) if "huge" in d["what"] else None)
        say(json.dumps(o, indent=1))
        return 1 if bad(o, ()) else 0
    if not a or a[0] not in PROPS:
        say("usage: check.py PROPERTY [quick|thorough]; properties: " + " ".join(PROPS))
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier)
    except RuntimeError as e:
        say("NO-ANSWER " + str(e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
