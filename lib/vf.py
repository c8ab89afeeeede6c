"""Shared machinery of the checks: build, TLC, replay, findings, evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(VERIF, "harness")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TVH = os.path.join(TARGET, "debug", "tvh")
TOMBI = os.path.join(TARGET, "debug", "tombi")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        RUSTC_WRAPPER="",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET,
    )
    for k in ("CARGO_INCREMENTAL", "RUSTFLAGS", "TOMBI_CACHE_HOME", "TOMBI_NO_CACHE",
              "TOMBI_CACHE_TTL", "TOMBI_OFFLINE", "TOMBI_LOG", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e


# ------------------------------------------------------------------- build
SOURCE_DIRS = ["crates", "rust", "extensions", "www.schemastore.org", "www.schemastore.tombi",
               "schemas"]


def _sources():
    for name in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, name)
        if name in ("target", ".git", "node_modules", "editors", "docs", ".tmp"):
            continue
        if os.path.isfile(p):
            yield p
        elif os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("node_modules", "target", ".git"))
                for f in sorted(files):
                    yield os.path.join(d, f)


def _hashes():
    out = {}
    for p in _sources():
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        with open(p, "rb") as f:
            out[p] = hashlib.sha256(f.read()).hexdigest()
    return out


def build():
    """Build the harness and the tombi binary from /repo's working tree.

    Cargo decides by modification time; a file whose content changed while its
    time did not move forward is touched first, so content decides.
    """
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp_file = os.path.join(BUILD, "stamp.json")
        hashes = _hashes()
        try:
            with open(stamp_file) as f:
                stamp = json.load(f)
        except (OSError, ValueError):
            stamp = None
        if stamp is not None:
            for p, h in hashes.items():
                if stamp["hashes"].get(p) != h and os.stat(p).st_mtime <= stamp["time"] + 1:
                    os.utime(p)
            gone = [p for p in stamp["hashes"] if p not in hashes]
            for p in gone:  # a removed module: let cargo look at its crate again
                d = os.path.dirname(p)
                while d.startswith(REPO + "/"):
                    lib = os.path.join(d, "src", "lib.rs")
                    if os.path.exists(lib):
                        os.utime(lib)
                        break
                    d = os.path.dirname(d)
        start = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(TVH):
            raise ToolError("build failed:\n" + r.stdout[-4000:])
        with open(stamp_file, "w") as f:
            json.dump({"time": start, "hashes": hashes}, f)
        return time.time() - start


# --------------------------------------------------------------------- TLC
class Members(list):
    """A TLA+ set of records (which Python cannot hold in a set)."""


def tla_value(v):
    if isinstance(v, Members):
        return "{" + ", ".join(tla_value(x) for x in v) + "}"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def run_tlc(module, consts, scratch, vectors=None, invariants=(), properties=(), emit="Emit",
            simulate=None, seed=1, timeout=600, spec="Spec", constraint=None, workers=8,
            postcondition=None, mem="6g", view=None, name=None, allow_violation=False):
    """Run TLC; write emitted vectors (one JSON value per line) to `vectors`.

    Every constant is passed by definition override, so any TLA+ value works.
    """
    name = name or module
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), d)
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
        for k, v in consts.items():
            f.write("MC_%s == %s\n" % (k, tla_value(v)))
        f.write("====\n")
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts:
            f.write("CONSTANTS\n" + "".join(" %s <- MC_%s\n" % (k, k) for k in consts))
        inv = list(invariants) + ([emit] if emit else [])
        if inv:
            f.write("INVARIANTS " + " ".join(inv) + "\n")
        if properties:
            f.write("PROPERTIES " + " ".join(properties) + "\n")
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        if postcondition:
            f.write("POSTCONDITION %s\n" % postcondition)
        if view:
            f.write("VIEW %s\n" % view)
        f.write("CHECK_DEADLOCK FALSE\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
           "-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate["depth"]),
                "-seed", str(seed)]
    cmd.append("MC.tla")
    t0 = time.time()
    log = open(os.path.join(d, "log"), "w")
    n = 0
    out = open(vectors, "a") if vectors else None
    seen = set()
    try:
        p = subprocess.Popen(cmd, cwd=d, env=env(), stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace")
        import threading
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        for line in p.stdout:
            if line.startswith('"@@'):
                if out:
                    v = json.loads(line)[2:]
                    if simulate:  # random behaviours revisit states
                        h = hash(v)
                        if h in seen:
                            continue
                        seen.add(h)
                    out.write(v + "\n")
                    n += 1
            else:
                log.write(line)
        p.wait()
        timed_out = not timer.is_alive()
        timer.cancel()
    finally:
        log.close()
        if out:
            out.close()
    text = open(os.path.join(d, "log")).read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        gen = int(m[-1].replace(",", "")) if m else 0
        dist = n
    ok = p.returncode == 0 and ("No error has been found" in text or simulate)
    res = {"module": module, "name": name, "states": dist, "transitions": gen, "vectors": n,
           "wall_s": round(time.time() - t0, 2), "ok": bool(ok), "exit": p.returncode,
           "log": text[-3000:]}
    if not ok and not allow_violation:
        raise ToolError("TLC on %s%s: exit %s\n%s" % (
            module, " timed out" if timed_out else "", p.returncode, text[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------------------------ replay
def replay(target, vectors, scratch, seed, tier, extra=(), timeout=800):
    out = os.path.join(scratch, "report-%s-%d.json" % (target, os.getpid()))
    if os.path.exists(out):
        os.unlink(out)
    box = os.path.join(scratch, "box-" + target)
    os.makedirs(box, exist_ok=True)
    cmd = [TVH, "replay", target, "--in", vectors, "--out", out, "--scratch", box,
           "--seed", str(seed), "--tier", tier, *extra]
    try:
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s timed out" % target)
    if not os.path.exists(out):
        if r.returncode < 0 or r.returncode > 2:
            # the code under test took the process down (abort, stack overflow)
            return {"vectors": 0, "evaluations": 1, "distinct_nontrivial": 0, "counters": {},
                    "violation_count": 1, "violations_per_key": {"process-died": 1},
                    "violations": [{"key": "process-died", "what":
                                    "process under test died with status %s: %s" % (
                                        r.returncode, r.stderr[-500:]), "line": 0,
                                    "replay": {"vectors": vectors}}], "samples": []}
        raise ToolError("harness %s failed (%s): %s" % (target, r.returncode, r.stderr[-3000:]))
    with open(out) as f:
        return json.load(f)


# ---------------------------------------------------------------- findings
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """finding lines: `finding: property=<id> key=<json string> <what fails>`"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=("(?:[^"\\]|\\.)*") (.*)', line.strip())
            if m and m.group(1) == prop:
                out[json.loads(m.group(2))] = m.group(3)
    return out


def finish(prop, tier, seed, t0, reports, tlc_runs, level="model_checking", assumptions=(),
           extra=None):
    """Merge the reports, write evidence, print the verdict; returns exit code."""
    known = known_findings(prop)
    violations, seen_known = [], {}
    for rep in reports:
        for key in rep["violations_per_key"]:
            if key in known:
                seen_known[key] = known[key]
        for v in rep["violations"]:
            if v["key"] not in known:
                violations.append(v)
    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    states = sum(r["states"] for r in tlc_runs)
    transitions = sum(r["transitions"] for r in tlc_runs)
    replayed = sum(r["vectors"] for r in reports)
    counters = {}
    for r in reports:
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
    samples = [s for r in reports for s in r["samples"]][:8]
    coverage = {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": replayed,
        "executions_of_the_code": sum(r["evaluations"] for r in reports),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in reports),
        "counters": counters,
        "tlc": [{k: r[k] for k in ("module", "name", "states", "transitions", "vectors", "wall_s")}
                for r in tlc_runs],
        "samples": samples or [{"note": "no sample"}],
    }
    if extra:
        coverage.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "wall_s": round(time.time() - t0, 2),
        "violations": len({v["key"] for v in violations}),
        "known_findings_seen": sorted(seen_known.values()),
        "assumptions": list(assumptions),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    code = 0
    shown = set()
    for v in violations:
        if v["key"] in shown:
            continue
        shown.add(v["key"])
        code = 1
        h = hashlib.sha256(v["key"].encode()).hexdigest()[:12]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1)
        if len(shown) <= 10:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key:  %s" % v["key"][:300])
            print("  what: %s" % v["what"][:600])
    if len(shown) > 10:
        print("  ... and %d further distinct violations" % (len(shown) - 10))
    print("%s: %s; %d spec states, %d behaviours replayed, %d executions, %.1fs" % (
        prop, "VIOLATED" if code else "held on everything explored", states, replayed,
        coverage["executions_of_the_code"], time.time() - t0))
    return code
