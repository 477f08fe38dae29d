#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property by symbolic execution of the real code.

Regenerates LLVM IR from /repo's working tree (through the mirror manifests in harness/), runs the engine on every
harness entry of the property, replays what it reports (and a sample of what it explored) natively against the same
code, writes evidence/<id>.json, and exits 0 (held on everything explored) or 1 with a VIOLATION line.
Any other exit is an error of the check (build failure, budget exhausted, unsupported construct, encoding mismatch).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
T0 = time.time()
sys.path.insert(0, V)
from props import PROPS, ASSUME_COMMON  # noqa: E402

RV = "riscv64gc-unknown-linux-gnu"
SKIP = {"compiler_builtins", "panic_unwind", "panic_abort", "unwind", "addr2line", "gimli", "object", "miniz_oxide",
        "proc_macro", "libc", "rustc_demangle", "adler2"}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg):
    log("CHECK-ERROR", msg)
    sys.exit(2)


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, cwd, e, what, out=None):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        sys.stderr.write(p.stderr.decode(errors="replace")[-6000:])
        die("%s failed" % what)
    return p.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/engine"], V + "/engine",
        env(RUSTUP_TOOLCHAIN="stable"), "engine build")
    return B + "/engine/release/symir"


def tool(name):
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, env=env()).stdout.decode().strip()
    return r + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/" + name


def cargo_ir(crate):
    """Bitcode of the harness crate, the mirrored repository crates and std. Cargo rebuilds what changed by content."""
    flags = "--emit=llvm-bc --cfg symex --cfg verif -Zub-checks=no -Awarnings -Cno-vectorize-loops -Cno-vectorize-slp"
    out = run(["cargo", "build", "-Zchecksum-freshness", "--config", "build.fingerprint=\"content\"", "-p", crate, "--lib", "-Zbuild-std=std,panic_abort", "--target", RV, "--target-dir", B + "/ir",
               "--offline", "--message-format=json"], V + "/harness", env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=flags), "IR build of " + crate)
    bcs = []
    for line in out.splitlines():
        m = json.loads(line)
        if m["reason"] != "compiler-artifact" or m["target"]["name"] in SKIP:
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and RV in f:
                b = os.path.join(os.path.dirname(f), os.path.basename(f)[3:-5] + ".bc")
                if not os.path.exists(b):
                    die("no bitcode for " + f)
                bcs.append(b)
    return bcs


def build_ir(crate, entries):
    """Everything linked and reduced to what the entries reach."""
    bcs = cargo_ir(crate)
    os.makedirs(B + "/ll", exist_ok=True)
    tag = crate + "-" + "-".join(entries)
    allbc, ll = B + "/ll/" + tag + ".bc", B + "/ll/" + tag + ".ll"
    run([tool("llvm-link")] + bcs + ["-o", allbc], V, env(), "llvm-link")
    red = allbc + ".red.bc"
    pub = "-internalize-public-api-list=" + ",".join(entries)
    run([tool("opt"), "-passes=internalize,globaldce", pub, allbc, "-o", red], V, env(), "opt")
    os.remove(allbc)
    nm = run([tool("llvm-nm"), "--defined-only", "--format=just-symbols", red], V, env(), "llvm-nm").decode().split()
    run([tool("opt"), "-passes=default<O2>,internalize,globaldce", pub, "-vectorize-loops=false", "-vectorize-slp=false", red, "-S", "-o", ll], V, env(), "opt")
    os.remove(red)
    return ll, [n for n in nm if n.startswith("_R") or n.startswith("_ZN")]


def build_replay(crate):
    run(["cargo", "build", "-Zchecksum-freshness", "--config", "build.fingerprint=\"content\"", "-p", crate, "--bins", "--target-dir", B + "/host", "--offline"], V + "/harness",
        env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Awarnings --cfg verif"), "native build of " + crate)
    return B + "/host/debug/replay_" + crate[2:]


def replay(binary, entry, path, timeout=30):
    """(outcome, obs, text): outcome is ok | panic | assert | hang | diverged | crash"""
    try:
        p = subprocess.run([binary, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env(RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "hang", "", "no result within %d s" % timeout
    t = p.stdout.decode(errors="replace")
    m = re.search(r"^REPLAY-OBS (\w*)$", t, re.M)
    obs = m.group(1) if m else ""
    note = re.findall(r"^REPLAY-NOTE (.*)$", t, re.M)
    note = "text: %s -> " % note[-1] if note else ""
    if "REPLAY-PANIC" in t:
        return "panic", obs, note + re.search(r"^REPLAY-PANIC (.*)$", t, re.M).group(1)
    if "REPLAY-ASSERT" in t:
        return "assert", obs, note + re.search(r"^REPLAY-ASSERT (.*)$", t, re.M).group(1)
    if "REPLAY-OK" in t:
        return "ok", obs, ""
    if p.returncode < 0:
        return "crash", obs, "signal %d" % -p.returncode
    return "diverged", obs, t[-300:]


def fields(path):
    d = {"in": [], "param": []}
    for l in open(path, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("in", "param"):
            d[k].append(v)
        else:
            d[k] = v
    return d


def show_inputs(d):
    """Inputs of a path, with consecutive bytes of one name joined into a literal."""
    out, cur, name = [], [], None

    def flush():
        if cur:
            out.append("%s=%r" % (name, bytes(cur)))
        cur.clear()

    for i in d["in"]:
        n, w, v = i.rsplit(" ", 2)
        base = n.rsplit("#", 1)[0]
        if w == "8" and base == name:
            cur.append(int(v) & 255)
            continue
        flush()
        if w == "8":
            name = base
            cur.append(int(v) & 255)
        else:
            name = None
            out.append("%s=%s" % (base, v))
    flush()
    return " ".join(out)


def known_findings(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def setup():
    """Builds the engine and every harness crate once (the checks rebuild what they need themselves)."""
    os.makedirs(B, exist_ok=True)
    build_engine()
    log("engine built")
    first = {}
    for c in PROPS.values():
        for h in c["harness"]:
            first.setdefault(h["crate"], h["entry"])
    for crate in first:
        cargo_ir(crate)
        build_replay(crate)
        log(crate, "built")


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    runs = []
    for h in cfg["harness"]:
        if h.get("tier") == "thorough" and tier != "thorough":
            continue
        runs.append(h)
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    crates = []
    for h in runs:
        if h["crate"] not in crates:
            crates.append(h["crate"])
    lls, bins = {}, {}
    res, linked = {}, set()

    def job(f):
        try:
            f()
        except SystemExit:
            res["failed"] = True

    def irs():
        for c in crates:
            lls[c], syms = build_ir(c, sorted({h["entry"] for h in runs if h["crate"] == c}))
            linked.update(syms)

    def natives():
        res["engine"] = build_engine()
        for c in crates:
            bins[c] = build_replay(c)

    ts = [threading.Thread(target=job, args=(f,)) for f in (irs, natives)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if res.get("failed"):
        sys.exit(2)
    engine = res["engine"]
    log("engine, IR and replay binaries built")
    total_budget = cfg.get("budget", 600) if tier == "quick" else cfg.get("thorough_budget", 3600)
    violations, known_hit, errors = [], [], []
    entries_ev, samples, functions, asserts = [], [], set(), set()
    tot = dict(paths=0, instructions=0, forks=0, assertions=0, z3_queries=0, z3_s=0.0, byte_domain_queries=0, case_analysis_queries=0, case_analysis_confirmed_by_z3=0, query_cache_hits=0,
               z3_sat=0, z3_unsat=0, assumed_away=0)
    validated = 0
    start = time.time()
    rdir = os.path.join(B, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    for hi, h in enumerate(runs):
        params = dict(h.get("params", {}))
        if tier == "thorough":
            params.update(h.get("thorough", {}))
        left = total_budget - (time.time() - start)
        if left < 5:
            errors.append("budget exhausted before %s" % h["entry"])
            break
        out = os.path.join(B, "run", pid, "%s-%d" % (h["entry"], hi))
        os.makedirs(out, exist_ok=True)
        cmd = [engine, "--ir", lls[h["crate"]], "--entry", h["entry"], "--out", out, "--timeout", str(int(left)), "--procs", "8",
               "--max-steps", str(h.get("max_steps", 40000000 if h["crate"] in ("h_ide", "h_lsp") else 5000000)), "--max-errors", str(h.get("max_errors", 4)),
               "--deep", str(h.get("deep", 8 if h["crate"] in ("h_ide", "h_lsp") else 16)),
               "--params", ",".join("%s=%d" % kv for kv in params.items())]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(RUST_BACKTRACE="1"))
        if p.returncode != 0 or not os.path.exists(out + "/summary.json"):
            errors.append("engine failed on %s: %s" % (h["entry"], p.stderr.decode(errors="replace")[-1500:]))
            continue
        s = json.load(open(out + "/summary.json"))
        covers, unsup, fns = {}, set(), set()
        for f in glob.glob(out + "/part.*"):
            for l in open(f, errors="replace"):
                k, _, v = l.rstrip("\n").partition(" ")
                if k == "fn":
                    fns.add(v)
                elif k == "cover":
                    n, _, m = v.partition(" ")
                    covers[m] = covers.get(m, 0) + int(n)
                elif k == "unsup":
                    unsup.add(v)
                elif k == "assert":
                    asserts.add(h["entry"] + ": " + v)
        functions |= fns
        for k in tot:
            tot[k] += s[k]
        log("%s %s paths=%d instr=%d z3=%d (%.1fs) errors=%d wall=%.1fs" % (h["entry"], params, s["paths"], s["instructions"], s["z3_queries"], s["z3_s"], s["errors"], s["wall_s"]))
        # ---- violations: replay natively, keep what reproduces
        reproduced, known_here = False, 0
        for f in sorted(glob.glob(out + "/error.*")):
            d = fields(f)
            if len(violations) >= 3:
                break
            oc, _, text = replay(bins[h["crate"]], h["entry"], f, 10 if d["kind"] == "steps" else 30)
            desc = "%s/%s: %s [%s] inputs: %s" % (pid, h["entry"], d.get("msg", ""), text, show_inputs(d))
            if d["kind"] == "steps" and oc == "hang" or d["kind"] == "stack" and oc in ("crash", "hang") or \
               d["kind"] not in ("steps", "stack") and oc in ("panic", "assert", "crash"):
                reproduced = True
                kf = [k for k in known_findings(pid) if re.search(k["match"], desc)]
                if kf:
                    known_hit.append(kf[0]["what"])
                    known_here += 1
                    continue
                keep = os.path.join(rdir, "%s-%d" % (h["entry"], len(violations)))
                shutil.copy(f, keep)
                with open(keep, "a") as g:
                    g.write("entry %s\nbinary %s\noutcome %s %s\n" % (h["entry"], bins[h["crate"]], oc, text))
                violations.append((desc, keep, d.get("stack", "")))
            else:
                errors.append("counterexample does not reproduce natively (%s, native %s %s): %s | %s" % (d["kind"], oc, text, desc, d.get("stack", "")))
        if s["errors"] and not reproduced and not errors:
            errors.append("violation without a replay file")
        # ---- validation of the encoding: sampled paths, same inputs natively
        ss = sorted(glob.glob(out + "/sample.*"))
        step = max(1, len(ss) // 40)
        for f in ss[::step][:60]:
            d = fields(f)
            oc, obs, text = replay(bins[h["crate"]], h["entry"], f)
            if oc != "ok":
                errors.append("explored path differs natively (%s %s): %s" % (oc, text, show_inputs(d)))
            elif obs != d.get("obs", ""):
                errors.append("explored path computes other values natively: %s (%s / %s)" % (show_inputs(d), d.get("obs"), obs))
            else:
                validated += 1
                if len(samples) < 12:
                    samples.append("%s: %s -> observed %s" % (h["entry"], show_inputs(d), obs[:160]))
        if known_here and not violations and known_here >= h.get("max_errors", 4):
            errors.append("%s: stopped after %d known findings" % (h["entry"], known_here))
        if not violations:
            if s["timeout"]:
                errors.append("%s: budget exhausted (%d paths done)" % (h["entry"], s["paths"]))
            if unsup or s["unsupported"]:
                errors.append("%s: not encodable: %s" % (h["entry"], "; ".join(sorted(unsup)[:3])))
            if s["dead_workers"]:
                errors.append("%s: %d workers died" % (h["entry"], s["dead_workers"]))
            if s["assertions"] == 0 and not s["errors"]:
                errors.append("%s: vacuous, no assertion reached" % h["entry"])
            if s["errors"] == known_here:
                for c in h.get("covers", []):
                    if not covers.get(c):
                        errors.append("%s: vacuous, %r never reached" % (h["entry"], c))
        entries_ev.append(dict(entry=h["entry"], harness=h["crate"], bounds=h.get("bounds", ""), params=params, covers=covers, engine=s))
        if violations:
            break
    repo_fns = sorted({f for f in (demangle(x) for x in linked) if any(f.startswith(c + "::") or ("::" + c + "::") in f for c in cfg["crates"])})
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(violations),
              assumptions=ASSUME_COMMON + cfg.get("assume", []),
              coverage=dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated,
                            samples=samples or ["none"], exhaustive=not errors and not violations,
                            states_are="completed symbolic paths (each stands for every input satisfying its path condition)",
                            transitions_are="LLVM instructions interpreted symbolically",
                            functions_encoded=len(linked), functions_interpreted_after_inlining=len(functions), functions_of_the_repository=repo_fns, assertions_discharged=tot["assertions"],
                            assertions=sorted(asserts),
                            z3_queries=tot["z3_queries"], z3_sat=tot["z3_sat"], z3_unsat=tot["z3_unsat"], solver_s=round(tot["z3_s"], 2),
                            byte_domain_queries=tot["byte_domain_queries"], case_analysis_queries=tot["case_analysis_queries"], case_analysis_confirmed_by_z3=tot["case_analysis_confirmed_by_z3"], query_cache_hits=tot["query_cache_hits"],
                            forks=tot["forks"], inputs_assumed_away=tot["assumed_away"], bounds=cfg.get("bounds", ""), runs=entries_ev,
                            known_findings=known_hit, errors=errors))
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        for d, keep, stack in violations[:4]:
            log("counterexample:", d)
            log("   at", stack)
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]), flush=True)
        sys.exit(1)
    if errors:
        for e in errors[:10]:
            log("ERROR", e)
        die("%d problem(s); no verdict" % len(errors))
    log("%s: held on everything explored (%d paths, %d repository functions encoded)" % (pid, tot["paths"], len(repo_fns)))


def demangle(n):
    """Path segments of a v0 or legacy mangled name."""
    segs, i = [], 2
    while i < len(n):
        m = re.match(r"Cs[0-9A-Za-z]+_", n[i:])
        if m:
            i += m.end()
            continue
        m = re.match(r"[1-9][0-9]*", n[i:])
        if m:
            k = int(m.group())
            j = i + m.end()
            if j < len(n) and n[j] == "_":
                j += 1
            seg = n[j:j + k]
            if len(seg) == k and re.match(r"^[\w$.]+$", seg):
                segs.append(seg)
                i = j + k
                continue
        i += 1
    return "::".join(segs)


if __name__ == "__main__":
    main()
