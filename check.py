#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
  1. builds the symbolic executor (engine/), the harness crate as LLVM IR (harness/, which compiles /repo's crates
     into it) and the native replayer (replay/), in parallel;
  2. runs every harness of the property symbolically, with a time budget each;
  3. replays every counterexample natively and reports only those that reproduce;
  4. replays sampled path models natively and compares outcome and observed bytes with what the engine predicted;
  5. writes evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Exit 3: the machinery failed.
"""
import collections, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
FEAT = PROP.lower()
T0 = time.time()
QUICK = TIER == "quick"
# seconds: per harness, all harnesses together
CAP, TOTAL = (120, 330) if QUICK else (1500, 4 * 3600)
PROCS = max(1, min(8, os.cpu_count() or 8))

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def fail(msg):
    log("CHECK-ERROR", msg)
    sys.exit(3)

# ---------------------------------------------------------------- harnesses and their bounds
def harnesses():
    src = open(os.path.join(ROOT, "harness/src/%s.rs" % FEAT)).read()
    out = []
    for m in re.finditer(r"((?:^///[^\n]*\n)*)^fn (%s_\w+)\(\) \{" % FEAT, src, re.M):
        doc = " ".join(l[3:].strip() for l in m.group(1).splitlines())
        out.append((m.group(2), doc))
    line_msg = {}
    for i, l in enumerate(src.splitlines(), 1):
        m = re.search(r'check!\(.*"([^"]*)"\)', l)
        if m:
            line_msg[i] = m.group(1)
    return out, line_msg

# ---------------------------------------------------------------- builds
def copy_cli():
    """the command line tool's sources, to be compiled into the harness as a module"""
    src, dst = os.path.join(REPO, "cli/src"), os.path.join(BUILD, "cli-src")
    shutil.rmtree(dst, ignore_errors=True)
    for d, _, fs in os.walk(src):
        to = os.path.join(dst, os.path.relpath(d, src))
        os.makedirs(to, exist_ok=True)
        for f in fs:
            s = open(os.path.join(d, f), "rb").read()
            if f.endswith(".rs"):
                s = re.sub(rb"(?<![\w$])crate::", b"crate::c20::cli::", s)
            open(os.path.join(to, f), "wb").write(s)

def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    feats = ["--features", FEAT]
    jobs = {
        "engine": (os.path.join(ROOT, "engine"), "engine", ["cargo", "build", "--release", "--offline", "-q"]),
        "ir": (os.path.join(ROOT, "harness"), "sym-" + FEAT, ["cargo", "rustc", "-q", "--offline", "--release", "--lib"] + feats +
               ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-Awarnings"]),
        "replay": (os.path.join(ROOT, "replay"), "nat-" + FEAT, ["cargo", "build", "-q", "--offline"] + feats),
    }
    if FEAT == "c20":
        copy_cli()
    errs = {}
    def one(name):
        cwd, tgt, cmd = jobs[name]
        e = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, tgt))
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            errs[name] = p.stdout[-4000:]
    ll = os.path.join(BUILD, "sym-" + FEAT, "release/deps/harness.ll")
    ths = [threading.Thread(target=one, args=(n,)) for n in jobs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if FEAT == "c19" and "replay" in errs and "engine" not in errs:
        bindings(env, errs)
    if errs:
        fail("build failed: " + "; ".join("%s:\n%s" % x for x in errs.items()))
    if not os.path.exists(ll):
        fail("no IR produced")
    return (os.path.join(BUILD, "engine/release/symir"), ll, os.path.join(BUILD, "nat-" + FEAT, "debug/replay"))

def bindings(env, errs):
    """the repository and the harness without bindings build, the bindings of supported ABIs do not: the macro generates invalid code"""
    tgt = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "nat-c12"))
    ok = [subprocess.run(["cargo", "build", "-q", "--offline"] + a, cwd=d, env=tgt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0
          for d, a in ((os.path.join(ROOT, "replay"), ["--features", "c12"]), (os.path.join(REPO, "derive"), []), (os.path.join(REPO, "contract"), []))]
    if not all(ok) or not re.search(r"src/c19w?\.rs|EthabiContract", errs["replay"]):
        return
    d = os.path.join(ROOT, "replays", PROP)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "build.txt")
    open(path, "w").write("# the bindings generated for harness/abi/*.abi do not compile, or not with the declared Rust types\n" + errs["replay"])
    log("the generated bindings do not compile:\n" + errs["replay"][-1500:])
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 1), violations=1,
        coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=False, samples=[dict(harness="build", outcome="the generated bindings do not compile", error=errs["replay"][-1500:])]),
        assumptions=["the ABI files in harness/abi and /repo/res are supported by the derive macro"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", PROP + ".json"), "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (PROP, path), flush=True)
    sys.exit(1)

# ---------------------------------------------------------------- native runs
def native(replay, harness, inp, timeout=60):
    """(exit code or 'hang', observations)"""
    f = os.path.join(BUILD, "input-%s-%d" % (FEAT, threading.get_ident()))
    open(f, "w").write(inp)
    try:
        p = subprocess.run([replay, harness, "@" + f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        obs = [l[4:] for l in p.stdout.decode("latin1").splitlines() if l.startswith("obs ")]
        return p.returncode, obs, p.stderr.decode("utf8", "replace")[-600:]
    except subprocess.TimeoutExpired:
        return "hang", [], "no answer in %d s" % timeout
    finally:
        try: os.remove(f)
        except OSError: pass

def reproduced(kind, rc):
    # signals (stack overflow, abort) count as a crash
    crash = rc in (10, 11, 12) or rc == "hang" or (isinstance(rc, int) and (rc < 0 or rc >= 128))
    return crash

def known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) (.*)", l.strip())
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    hs, msgs = harnesses()
    if not hs:
        fail("no harness for " + PROP)
    os.makedirs(BUILD, exist_ok=True)
    engine, ll, replay = build()
    log("built from", REPO)
    t_build = time.time() - T0
    out = os.path.join(BUILD, "out-" + FEAT)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rdir = os.path.join(ROOT, "replays", PROP)
    shutil.rmtree(rdir, ignore_errors=True)
    kn = dict(known())
    viols, notes, table, funcs, samples_out = [], [], [], collections.Counter(), []
    tot = collections.Counter()
    solver = 0.0
    versions = set()
    validated = 0
    mismatched = []
    run = [h for h in hs if not (QUICK and h[0].endswith("_t"))]
    # the shortest first, by the times tools/costs.py noted: should the time run out, it does in the longest
    try: cost = json.load(open(os.path.join(ROOT, "tools", "costs.json")))
    except (OSError, ValueError): cost = {}
    run.sort(key=lambda h: cost.get(h[0], 5))
    skipped = [h for h in hs if h not in run]
    t_run = time.time()
    for i, (h, doc) in enumerate(run):
        left = TOTAL - (time.time() - t_run)
        cap = min(CAP, left)
        if cap < 3:
            table.append(dict(harness=h, bounds=doc, complete=False, not_run="total time budget used up"))
            notes.append("%s not run: total time budget used up" % h)
            continue
        t1 = time.time()
        cmd = [engine, ll, out, "--procs", str(PROCS), "--budget", "%.0f" % cap, "--samples", "3", "--audit", "97", "--seed", str(SEED), h]
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            txt, _ = p.communicate(timeout=cap + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, txt = "timeout", ""
        # the workers are in the engine's process group: none outlives it
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.wait()
        rf = os.path.join(out, h + ".res")
        recs = []
        if os.path.exists(rf):
            for l in open(rf):
                try: recs.append(json.loads(l))
                except ValueError: notes.append("%s: unreadable result record" % h)
        c = collections.Counter()
        reach, unsup, vs, ss = collections.Counter(), collections.Counter(), [], []
        for r in recs:
            for k, v in r.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool) and k != "wall":
                    c[k] += v
            c["timeouts"] += bool(r["timeout"])
            reach.update(r["reach"]); unsup.update(r["unsupported"]); funcs.update(r["funcs"])
            vs += r["violations"]; ss += r["samples"]; versions.add(r["z3"])
        complete = bool(recs) and rc == 0 and not c["left"] and not c["timeouts"] and not c["unsup"] and not c["q_unk"] and not vs
        row = dict(harness=h, bounds=doc, complete=complete, paths=c["done"], infeasible=c["infeasible"], instructions=c["steps"], forks=c["forks"],
                   queries=c["q"], sat=c["q_sat"], unsat=c["q_unsat"], unknown=c["q_unk"], solver_s=round(c["q_ms"] / 1000, 2),
                   decided_by_interval_domain=c["dom"], of_those_rechecked_by_solver=c["audited"], assertions=c["asserts"], assertions_by_solver=c["asserts_z3"],
                   assertions_constant_true=c["asserts_const"], equalities_confirmed_by_solver=c["eq_q"], states_left=c["left"], unsupported=dict(unsup.most_common(5)), reached=dict(reach), wall_s=round(time.time() - t1, 1))
        if rc not in (0,):
            row["engine_exit"] = str(rc)
            notes.append("%s: engine exit %s %s" % (h, rc, txt[-300:]))
        # ---- counterexamples
        groups = collections.OrderedDict()
        for v in vs:
            groups.setdefault((v["kind"], v["msg"]), []).append(v)
        bad = 0
        for (kind, msg), g in groups.items():
            ok = None
            for v in sorted(g, key=lambda v: len(v["input"]))[:4]:
                # several runs: the keys of hash maps differ from run to run
                for _ in range(6):
                    rcn, obs, err = native(replay, h, v["input"], 30)
                    if reproduced(kind, rcn):
                        ok = (v, rcn, err)
                        break
                if ok: break
            if ok is None:
                notes.append("%s: counterexample (%s %s) does not reproduce natively (exit %s): undecided" % (h, kind, msg, rcn))
                row.setdefault("undecided", []).append("%s %s" % (kind, msg))
                continue
            v, rcn, err = ok
            if h in kn:
                print("KNOWN-FINDING: property=%s %s" % (PROP, kn[h]), flush=True)
                row["known_finding"] = kn[h]
                continue
            bad += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.txt" % (h, len(viols)))
            what = msg
            m = re.search(r"(\d+)", msg)
            if kind == "assert" and m and int(m.group(1)) in msgs:
                what = "%s: %s" % (msg, msgs[int(m.group(1))])
            with open(path, "w") as f:
                f.write("# property %s, harness %s: %s %s\n" % (PROP, h, kind, what))
                f.write("# bounds: %s\n# native run: exit %s %s\n" % (doc, rcn, " | ".join(err.strip().splitlines())))
                f.write("# rerun: (cd %s && python3 check.py --build-only %s) ; %s %s @%s\n" % (ROOT, PROP, replay, h, path))
                f.write(v["input"] + "\n")
            viols.append(dict(harness=h, kind=kind, what=what, native=str(rcn), replay=path, input=v["input"][:2000]))
            log("%s: %s %s (native: %s)" % (h, kind, what, err.strip().splitlines()[0] if err.strip() else rcn))
            print("VIOLATION property=%s replay=%s" % (PROP, path), flush=True)
        # ---- sampled paths against the real build
        okn = 0
        jobs = ss[:: max(1, len(ss) // 24)][:24] if not viols else []
        res = [None] * len(jobs)
        def val(a, b):
            for k in range(a, b):
                how, inp, obs = jobs[k].split("|")
                res[k] = (how, inp, [o for o in obs.split(",") if o != ""], native(replay, h, inp, 60))
        ths = [threading.Thread(target=val, args=(k * len(jobs) // 8, (k + 1) * len(jobs) // 8)) for k in range(8)]
        [t.start() for t in ths]; [t.join() for t in ths]
        for how, inp, obs, (rcn, nobs, err) in res:
            nobs = [o for o in nobs if o != ""]
            if rcn == 0 and nobs == obs:
                okn += 1
                if len(samples_out) < 12:
                    samples_out.append(dict(harness=h, input=inp[:400], observed=[o[:200] for o in obs][:3], outcome="property held, native run agrees"))
            else:
                mismatched.append(dict(harness=h, input=inp[:2000], expected=obs[:3], native_exit=str(rcn), native=nobs[:3], err=err[-200:]))
                if reproduced("", rcn) and not viols and h not in kn:
                    # the real build breaks the property on an input the engine accepted
                    os.makedirs(rdir, exist_ok=True)
                    path = os.path.join(rdir, "%s-sample.txt" % h)
                    open(path, "w").write("# property %s, harness %s: native run of a sampled path fails\n# %s\n%s\n" % (PROP, h, " | ".join(err.strip().splitlines()), inp))
                    viols.append(dict(harness=h, kind="sample", what=err[-200:], native=str(rcn), replay=path, input=inp[:2000]))
                    print("VIOLATION property=%s replay=%s" % (PROP, path), flush=True)
        validated += okn
        row["path_models_replayed_natively"] = okn
        tot.update({k: c[k] for k in ("done", "infeasible", "steps", "forks", "q", "q_sat", "q_unsat", "q_unk", "dom", "audited", "asserts", "asserts_z3", "asserts_const", "eq_q", "left", "unsup")})
        solver += c["q_ms"] / 1000
        table.append(row)
        log("%-18s %s %5.1fs paths %d queries %d (%.1f s) asserts %d%s%s" % (h, "complete  " if complete else "incomplete", time.time() - t1, c["done"], c["q"], c["q_ms"] / 1000, c["asserts"],
            " unsupported %s" % dict(unsup.most_common(3)) if unsup else "", " VIOLATIONS %d" % bad if bad else ""))
        if not vs and c["done"] and not sum(reach.values()) and not c["asserts"]:
            notes.append("%s: no reachability mark or assertion reached (vacuous)" % h)
        if viols and QUICK:
            break
    for m in mismatched:
        notes.append("engine and native run disagree: %s" % json.dumps(m)[:600])
    for n in notes:
        log("NOTE", n)
    shutil.rmtree(out, ignore_errors=True)
    ethabi_funcs = sorted({clean(f) for f in funcs if re.search(r"ethabi|harness|main", f) and not re.search(r"7harness", f)})
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(viols),
        coverage=dict(
            states=tot["done"] + tot["infeasible"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=samples_out or [dict(note="no sampled path")],
            exhaustive=all(r.get("complete") or r.get("known_finding") for r in table),
            explanation="states: symbolic paths explored to their end; transitions: branches where both sides were feasible. Each path stands for all inputs satisfying its path condition; every assertion and every possible panic on it was decided for all of them.",
            functions_encoded=dict(total=len(funcs), of_repo=ethabi_funcs), harnesses=table,
            outside_the_bounds="inputs larger or of other shapes than each harness's bounds say; see DESIGN.md",
            thorough_only=[dict(harness=h, bounds=d) for h, d in skipped],
            queries=dict(total=tot["q"], sat=tot["q_sat"], unsat=tot["q_unsat"], unknown=tot["q_unk"], solver_s=round(solver, 1), solver="z3 " + ", ".join(sorted(versions))),
            branch_decisions_by_byte_domain=tot["dom"], of_those_rechecked_by_solver=tot["audited"],
            assertions=dict(total=tot["asserts"], by_solver=tot["asserts_z3"], folded_to_true=tot["asserts_const"], equalities_confirmed_by_solver=tot["eq_q"]),
            instructions_executed=tot["steps"], build_s=round(t_build, 1), undecided=notes, engine_native_disagreements=len(mismatched),
            violations_found=viols))
    ev["assumptions"] = ["rustc/LLVM lower the source to IR faithfully (same optimised IR for all properties; integer overflow checks on, panic=abort)",
        "our IR executor and Z3 are right (sampled paths are replayed natively on every run; see traces_validated_against_impl)",
        "Keccak-256 is modelled as an uninterpreted injective-by-argument function when its input is symbolic, computed when concrete",
        "memory: a single allocation above 16 MiB or more than 1 GiB in use counts as a failure"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", PROP + ".json"), "w"), indent=1)
    log("wrote evidence/%s.json: %d paths, %d queries, %.1f s solver, %d path models replayed, %s" % (PROP, tot["done"], tot["q"], solver, validated, "VIOLATED" if viols else "held"))
    sys.exit(1 if viols else 0)

def clean(f):
    """readable part of a mangled name"""
    m = re.findall(r"\d+([A-Za-z_][A-Za-z0-9_.$]*?)(?=\d|17h|E)", f)
    s = f
    if f.startswith("_ZN"):
        parts, i = [], 3
        while i < len(f) and f[i].isdigit():
            j = i
            while f[j].isdigit(): j += 1
            n = int(f[i:j]); parts.append(f[j:j + n]); i = j + n
        s = "::".join(p for p in parts if not re.fullmatch(r"h[0-9a-f]{16}", p))
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("..", "::")):
            s = s.replace(a, b)
    return s

if PROP == "--build-only":
    PROP = sys.argv[2]; FEAT = PROP.lower(); os.makedirs(BUILD, exist_ok=True); build(); sys.exit(0)
main()
