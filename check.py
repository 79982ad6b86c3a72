#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

  check.py C09            quick tier (VERIF_TIER=quick, the default)
  check.py C09 --thorough (or VERIF_TIER=thorough)

1. builds the symbolic executor (engine/) and, from /repo/src/store as it is now,
   the harness crate: LLVM IR and the shared object generated from it in one go;
2. executes the property's harness jobs symbolically (jobs.py), Z3 deciding every
   branch and assertion;
3. replays recorded paths natively in the shared object: some samples, whose
   observations must be the ones predicted, and every violation, which must reproduce;
4. writes evidence/<id>.json.
Exit 0: held; 1: VIOLATION line; anything else: no verdict.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
import jobs as J

T0 = time.time()
CLEAN_ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}


def say(*a):
    print(*a, flush=True)


def die(msg, code=2):
    say("ERROR:", msg)
    sys.exit(code)


def run(cmd, env=None, cwd=None, timeout=900, **kw):
    e = dict(CLEAN_ENV)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def store_dir(work):
    """The repository's build regenerates segment_metadata.rs from its .proto. When either
    differs from the committed pair, do the same, next to links to the other sources."""
    src = os.path.join(REPO, "src/store")
    pins = json.load(open(os.path.join(V, "pins.json")))
    p, r = os.path.join(src, "segment_metadata.proto"), os.path.join(src, "segment_metadata.rs")
    if os.path.exists(p) and os.path.exists(r) and sha(p) == pins["proto"] and sha(r) == pins["rs"]:
        return src
    say("segment_metadata.proto or .rs changed: regenerating, as build.rs does")
    out = os.path.join(work, "store")
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(src, out)
    x = run(["cargo", "run", "--offline", "--release", "--", src, out], cwd=os.path.join(V, "protogen"), env={"CARGO_TARGET_DIR": os.path.join(work, "t-protogen")})
    if x.returncode != 0:
        die("cannot regenerate segment_metadata.rs:\n" + x.stdout[-2000:])
    return out


OPTIONAL = {"tracing": r"\btracing::", "rand": r"\brand::", "pin-project-lite": r"\bpin_project_lite::"}


def optional_deps(store):
    """dependencies of the repository that its store code does not use outside tests as
    committed: compiled in when the current code does"""
    found = set()
    for d, _, fs in os.walk(store):
        for f in fs:
            if f.endswith(".rs"):
                txt = open(os.path.join(d, f), errors="replace").read()
                txt = re.sub(r"^#\[cfg\(test\)\]\s*mod \w+ \{.*?^\}", "", txt, flags=re.M | re.S)
                found |= {k for k, r in OPTIONAL.items() if re.search(r, txt)}
    return sorted(found)


class Build:
    def __init__(self, work, prop, debug_assertions=False):
        self.work, self.prop = work, prop
        self.target = os.path.join(work, "t-harness")
        self.dbg = debug_assertions
        # harnesses that need a hook which another representation of the state may not have
        self.far = True

    def env(self, store):
        flags = "--cfg meerkat_verif " + ("--cfg meerkat_verif_far " if self.far else "") + "-C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,-Bsymbolic"
        if self.dbg:
            flags += " -C debug-assertions=on"
        return {"RUSTFLAGS": flags, "MEERKAT_VERIF_DIR": os.path.join(V, "harness/hooks"), "MEERKAT_STORE_DIR": store, "CARGO_TARGET_DIR": self.target}

    def start(self, store):
        self.store = store
        e = dict(CLEAN_ENV)
        e["CARGO_NET_OFFLINE"] = "true"
        e.update(self.env(store))
        deps = os.path.join(self.target, "release/deps")
        for f in os.listdir(deps) if os.path.isdir(deps) else []:
            if f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
        fp = os.path.join(self.target, "release/.fingerprint")
        for f in os.listdir(fp) if os.path.isdir(fp) else []:
            if f.startswith("mkharness"):
                shutil.rmtree(os.path.join(fp, f))
        self.log = open(os.path.join(self.work, "build-harness.log"), "w+")
        self.p = subprocess.Popen(
            ["cargo", "rustc", "--lib", "--release", "--offline", "--features", ",".join([self.prop.lower()] + optional_deps(store)), "--", "--emit=llvm-ir,link"],
            cwd=os.path.join(V, "harness"), env=e, stdout=self.log, stderr=subprocess.STDOUT)

    def finish(self):
        rc = self.p.wait(timeout=800)
        self.log.flush()
        self.log.seek(0)
        if rc != 0:
            txt = self.log.read()
            if self.far:
                self.far = False
                self.log.close()
                self.start(self.store)
                return self.finish()
            errs = re.findall(r"^error.*?(?=^\S|\Z)", txt, re.M | re.S)
            die("the harness does not build against the current tree:\n" + ("\n".join(errs) or txt)[-3000:])
        self.log.close()
        deps = os.path.join(self.target, "release/deps")
        ll = [os.path.join(deps, f) for f in os.listdir(deps) if re.match(r"mkharness.*\.ll$", f)]
        if len(ll) != 1:
            die("expected one IR module, got %r" % ll)
        self.ll = ll[0]
        self.so = os.path.join(self.target, "release/libmkharness.so")


def replay(exe, so, harness, params, inputs, timeout=20, wrapper=None, stem="/tmp/mk", perturb=0):
    f = stem + ".in"
    with open(f, "w") as h:
        h.write("\n".join(str(x) for x in inputs) + "\n")
    cmd = (wrapper or []) + [exe, so, harness, f] + [str(p) for p in params]
    try:
        x = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={**CLEAN_ENV, "RUST_BACKTRACE": "0", **({"MALLOC_PERTURB_": str(perturb)} if perturb else {})})
    except subprocess.TimeoutExpired:
        return ("hang", "still running after %d s" % timeout, [])
    out = x.stdout.decode("utf8", "replace")
    err = x.stderr.decode("utf8", "replace")
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith("obs ")]
    m = re.search(r"^ASSERT (\d+)", out, re.M)
    if m:
        return ("assert", m.group(1), obs)
    if x.returncode == 0:
        return ("ok", err, obs)
    if x.returncode == 11:
        return ("expected-panic", "", obs)
    if x.returncode == 12:
        return ("mismatch", out[-200:], obs)
    if x.returncode == 99:
        return ("valgrind", err, obs)
    if x.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGTRAP, 134, 139):
        return ("crash", err.strip()[-1500:], obs)
    return ("odd", "exit %s %s" % (x.returncode, err[-300:]), obs)


def assert_text(prop, id):
    """source text of an assertion: ids are line numbers of the harness files"""
    n = int(id)
    fid, line = n >> 20, n & 0xFFFFF
    files = J.FILES.get(fid)
    if files is None:
        return {1: "deadlock: the operation waits for something that will never happen", 2: "use of a closed or invalid file descriptor"}.get(n, "assertion %d" % n)
    for f in files:
        try:
            ls = open(os.path.join(V, "harness/hooks", f)).read().split("\n")
            return "%s:%d: %s" % (f, line, ls[line - 1].strip())
        except (OSError, IndexError):
            pass
    return "assertion %d" % n


def setup():
    """nothing is kept from it (every check builds what it needs); shows that it all builds"""
    work = os.path.join(V, "work", "setup")
    os.makedirs(work, exist_ok=True)
    for c in ("engine", "protogen"):
        x = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, c), env={"CARGO_TARGET_DIR": os.path.join(work, "t-" + c)})
        if x.returncode != 0:
            die(c + " does not build:\n" + x.stdout[-3000:])
    shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return
    if len(sys.argv) < 2 or sys.argv[1] not in J.PROPS:
        die("usage: check.py PROPERTY [--thorough] [--keep]; properties: " + " ".join(sorted(J.PROPS)))
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    P = J.PROPS[prop]
    work = os.environ.get("MK_WORK") or os.path.join(V, "work", prop)
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(V, "work", "replays")
    os.makedirs(rdir, exist_ok=True)

    # --- build
    store = store_dir(work)
    b = Build(work, prop)
    b.start(store)
    x = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env={"CARGO_TARGET_DIR": os.path.join(work, "t-engine")})
    if x.returncode != 0:
        die("engine does not build:\n" + x.stdout[-3000:])
    mksym = os.path.join(work, "t-engine/release/mksym")
    exe = os.path.join(work, "replay")
    x = run(["cc", "-O1", "-rdynamic", "-o", exe, os.path.join(V, "replay/replay.c"), "-ldl"])
    if x.returncode != 0:
        die("replay driver does not build:\n" + x.stdout[-2000:])
    b.finish()
    t_build = time.time() - T0
    say("built in %.1f s (IR %.1f MB)" % (t_build, os.path.getsize(b.ll) / 1e6))

    rounds = [("", b)]
    if tier == "thorough" and "--no-debug" not in sys.argv:
        b2 = Build(work, prop, debug_assertions=True)
        b2.target = os.path.join(work, "t-harness-dbg")
        b2.start(store)
        b2.finish()
        rounds.append(("dbg:", b2))

    total = dict(paths=0, infeasible=0, expected_panics=0, forks=0, instrs=0, queries=0, sat=0, unsat=0, cached=0, unknown=0, solver_secs=0.0, asserts=0, asserts_symbolic=0)
    maxq = 0.0
    all_jobs, problems, confirmed, unconfirmed = [], [], [], []
    samples, checked, mism = [], 0, []
    reach, asserts = {}, {}
    lines = {}
    irfuncs = 0
    for tag, bb in rounds:
        js = J.jobs(prop, tier if tag == "" else "quick")
        if not bb.far:
            skipped = [j[0] for j in js if j[1].endswith("_far")]
            if skipped:
                say("not run, no hook to start far into a file or column: " + " ".join(skipped))
            js = [j for j in js if not j[1].endswith("_far")]
        if only:
            js = [j for j in js if any(o in j[0] for o in only)]
        jf = os.path.join(work, "jobs")
        with open(jf, "w") as f:
            for n, h, p in js:
                f.write("%s %s %s\n" % (n, h, " ".join(str(x) for x in p)))
        of = os.path.join(work, "out.json")
        lim = P.get("limits", {})
        budget = 600 if tier == "quick" else 3 * 3600
        cmd = [mksym, bb.ll, jf, of, "--threads", "8", "--secs", str(lim.get("secs", budget)), "--total", str(budget), "--steps", str(lim.get("steps", 20_000_000)), "--samples", "6"]
        # after a violation the other jobs get a minute; a property with open findings always has one
        if not any(e.get("status") == "open" for e in J.known_findings(V, prop)):
            cmd += ["--grace", "60"]
        dump = None
        if tier == "thorough" and tag == "":
            dump = os.path.join(work, "smt")
            shutil.rmtree(dump, ignore_errors=True)
            os.makedirs(dump)
            cmd += ["--dump", dump, "40", "7"]
        x = run(cmd, timeout=budget + 200)
        if x.returncode != 0:
            die("executor failed: " + x.stdout[-2000:])
        r = json.load(open(of))
        irfuncs = max(irfuncs, r["ir_functions_executed"])
        for f, fs in r["lines"].items():
            f = re.sub(r".*/src/store/", "src/store/", f)
            for fn, ls in fs.items():
                lines.setdefault(f, {}).setdefault(fn, set()).update(ls)
        for j in sorted(r["jobs"], key=lambda j: (not j["violations"], j["timed_out"])):
            j["name"] = tag + j["name"]
            all_jobs.append(j)
            for k in ("paths", "infeasible", "expected_panics", "forks", "instrs", "queries", "sat", "unsat", "cached", "unknown", "asserts_symbolic"):
                total[k] += j[k]
            total["solver_secs"] += j["solver_secs"]
            total["asserts"] += sum(j["asserts"].values())
            maxq = max(maxq, j["max_query_secs"])
            for k, v in j["reach"].items():
                reach[int(k)] = reach.get(int(k), 0) + v
            for k, v in j["asserts"].items():
                asserts[int(k)] = asserts.get(int(k), 0) + v
            for e in j["errors"]:
                problems.append("%s: %s" % (j["name"], e))
            if j["unknown"]:
                problems.append("%s: %d solver queries undecided" % (j["name"], j["unknown"]))
            stem = os.path.join(work, "case")
            if j["timed_out"]:
                hung = bool(confirmed)
                for s in [] if hung else j["suspects"]:
                    k = replay(exe, bb.so, j["harness"], j["params"], s, timeout=15, stem=stem)
                    if k[0] in ("hang", "crash", "assert"):
                        confirmed.append((tag, j, dict(kind="hang" if k[0] == "hang" else k[0], id=k[1], msg="does not finish", inputs=s, stack=[]), k))
                        hung = True
                        break
                if not hung:
                    problems.append("%s: time limit reached after %d paths" % (j["name"], j["paths"]))
            for v in j["violations"]:
                k = replay(exe, bb.so, j["harness"], j["params"], v["inputs"], stem=stem)
                good = (v["kind"] == "assert" and k[0] == "assert") or (v["kind"] == "panic" and k[0] in ("crash", "assert")) or (v["kind"] == "hang" and k[0] == "hang") or k[0] in ("crash", "assert", "hang")
                # a value read before it is written: with other contents of fresh memory
                for fill in (165, 90):
                    if not good and k[0] == "ok":
                        k = replay(exe, bb.so, j["harness"], j["params"], v["inputs"], stem=stem, perturb=fill)
                        good = k[0] in ("crash", "assert")
                if not good and v["kind"] == "memory" and shutil.which("valgrind"):
                    k = replay(exe, bb.so, j["harness"], j["params"], v["inputs"], timeout=120, wrapper=["valgrind", "-q", "--error-exitcode=99"], stem=stem)
                    good = k[0] in ("valgrind", "crash")
                (confirmed if good else unconfirmed).append((tag, j, v, k))
            # the executor's predictions against the compiled code
            for s in j["samples"]:
                k = replay(exe, bb.so, j["harness"], j["params"], s["inputs"], stem=stem)
                checked += 1
                if k[0] not in ("ok", "expected-panic") or k[2] != s["obs"]:
                    mism.append("%s inputs %s: predicted %s, native %s" % (j["name"], s["inputs"][:12], s["obs"][:12], k))
                elif len(samples) < 24:
                    samples.append(dict(job=j["name"], harness=j["harness"], params=j["params"], inputs=s["inputs"][:64], observed=s["obs"][:32]))
            if len(confirmed) > 40:
                break
        if dump:
            cross = cvc5_cross(dump)
        else:
            cross = None
        if tag == "":
            first_cross = cross

    want = P.get("reach", []) + (P["far_reach"] if b.far else [])
    missing = [w for w in want if not reach.get((w[0] << 20 | w[1]) if isinstance(w, tuple) else (J.fid(prop) << 20) | w)] if not only else []

    # --- verdict
    known = J.known_findings(V, prop)
    new, kf = [], {}
    for tag, j, v, k in confirmed:
        e = J.match_finding(known, j, v, k, assert_text(prop, v["id"]) if v["kind"] == "assert" else v["msg"])
        if e is not None:
            kf.setdefault(e["id"], (e, j, v))
        else:
            new.append((tag, j, v, k))
    for i, (e, j, v) in kf.items():
        say("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rc = 0
    seen = set()
    for tag, j, v, k in new:
        where = assert_text(prop, v["id"]) if v["kind"] == "assert" else v["msg"]
        key = (v["kind"], where)
        if key in seen:
            continue
        seen.add(key)
        rp = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, job=j["name"], harness=j["harness"], params=j["params"], kind=v["kind"], where=where, inputs=v["inputs"], stack=v["stack"], native=[k[0], k[1]],
                           rerun="cc -O1 -rdynamic -o replay /verif/replay/replay.c -ldl; write the inputs to FILE; ./replay libmkharness.so %s FILE %s" % (j["harness"], " ".join(map(str, j["params"])))), f, indent=1)
        say("  job %s: %s %s" % (j["name"], v["kind"], where))
        say("  native replay: %s %s" % (k[0], (assert_text(prop, k[1]) if k[0] == "assert" else k[1])[:400]))
        say("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    unlisted_known = [e for e in known if e["id"] not in kf]

    wall = time.time() - T0
    nlines = sum(len(l) for f in lines.values() for l in f.values())
    cov = dict(
        states=total["paths"] + total["expected_panics"],
        transitions=total["forks"],
        traces_validated_against_impl=checked - len(mism),
        samples=samples[:12] or [dict(note="no sample")],
        paths_complete=total["paths"], paths_ending_in_required_panic=total["expected_panics"], paths_infeasible=total["infeasible"],
        ir_instructions=total["instrs"], ir_functions_executed=irfuncs,
        assertions_evaluated=total["asserts"], assertions_decided_by_solver=total["asserts_symbolic"],
        solver_queries=total["queries"], solver_sat=total["sat"], solver_unsat=total["unsat"], solver_cached=total["cached"], solver_unknown=total["unknown"],
        solver_seconds=round(total["solver_secs"], 3), longest_query_seconds=round(maxq, 3),
        functions_encoded={f: {fn: len(l) for fn, l in sorted(fs.items())} for f, fs in sorted(lines.items()) if f.startswith("src/store/")},
        source_lines_encoded=nlines,
        bounds=P["bounds"] if isinstance(P["bounds"], str) else P["bounds"][tier],
        outside_bounds=P.get("outside", ""),
        jobs=[dict(name=j["name"], harness=j["harness"], params=j["params"], paths=j["paths"], queries=j["queries"], seconds=round(j["secs"], 2)) for j in all_jobs],
        exhaustive=not any(j["timed_out"] for j in all_jobs) and not problems,
    )
    if tier == "thorough" and first_cross:
        cov["cvc5_cross_check"] = first_cross
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "model_checking"), coverage=cov, wall_s=round(wall, 2), violations=len(seen),
              assumptions=J.ASSUME + P.get("assume", []))
    ev["coverage"]["known_findings_seen"] = sorted(kf)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d jobs, %d paths (%d required panics), %d forks, %d solver queries (%d unsat, %.2f s), %d assertions, %d native samples agree, build %.0f s, wall %.0f s" % (
        prop, tier, len(all_jobs), total["paths"], total["expected_panics"], total["forks"], total["queries"], total["unsat"], total["solver_secs"], total["asserts"], checked - len(mism), t_build, wall))
    if "-v" in sys.argv:
        for j in sorted(all_jobs, key=lambda j: -j["secs"])[:12]:
            say("   %-32s %7d paths %8.2f s  %d queries %.2f s solver" % (j["name"], j["paths"], j["secs"], j["queries"], j["solver_secs"]))
    if rc == 0:
        bad = []
        for tag, j, v, k in unconfirmed:
            bad.append("%s: %s %s not reproduced natively (%s) inputs %s" % (j["name"], v["kind"], assert_text(prop, v["id"]) if v["kind"] == "assert" else v["msg"], k[:2], v["inputs"][:30]))
        bad += problems
        bad += ["sample disagrees: " + m for m in mism[:5]]
        if missing:
            bad.append("harness points never reached: %s" % missing)
        if bad:
            for x in bad[:10]:
                say("INCONCLUSIVE:", x)
            sys.exit(3)
        for e in unlisted_known:
            say("note: listed finding %s did not show on this tree" % e["id"])
    if "--keep" not in sys.argv and not os.environ.get("MK_WORK"):
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def cvc5_cross(d):
    """the second solver on a sample of the queries the executor asked"""
    n = ok = bad = und = 0
    t = time.time()
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            if time.time() - t > 1200:
                break
            p = os.path.join(root, f)
            txt = open(p).read()
            m = re.search(r"^; expect (\w+)", txt, re.M) or re.search(r"\(set-info :status (\w+)\)", txt)
            if not m:
                continue
            n += 1
            try:
                x = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit", "20000", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
                r = x.stdout.strip().split("\n")[0]
            except subprocess.TimeoutExpired:
                r = "timeout"
            if r == m.group(1):
                ok += 1
            elif r in ("sat", "unsat"):
                bad += 1
            else:
                und += 1
    if bad:
        die("cvc5 disagrees with Z3 on %d queries in %s" % (bad, d))
    return dict(queries=n, agree=ok, undecided=und)


try:
    main()
except Exception as e:
    # no answer, which is not a violation
    import traceback

    traceback.print_exc()
    die("no answer: %r" % e, 3)
