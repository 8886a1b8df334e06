#!/usr/bin/env python3
"""Decide one property: check.py <property-id>

Regenerates every proof obligation from /repo's current working tree (Kani on
the real crate, with the ghost hooks of kani/hooks switched on by --cfg
thingbuf_verif), discharges them, and runs the bounded driver that looks for a
concrete failing input on the unmodified public API.

exit 0: every obligation of the property was discharged
exit 1: VIOLATION line(s) on stdout
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
START = time.time()
BUDGET = 840 if TIER == "quick" else 3 * 3600


def left():
    return BUDGET - (time.time() - START)


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Batch:
    """One cargo-kani invocation: harnesses that share the treatment of loops."""

    def __init__(self, prop, tag, names, loops_end, jobs, unwind=None, small=False):
        self.small, self.retry = small, []
        self.prop, self.tag, self.names, self.loops_end, self.jobs, self.unwind = prop, tag, names, loops_end, jobs, unwind
        self.results, self.error, self.cmd, self.out = {}, None, "", ""
        self.undecided, self.compiled = [], False

    def run(self):
        self.attempt(self.names)
        features = sorted({config.HARNESSES[n]["feature"] for n in self.names})
        if self.error and not self.compiled and len(features) > 1:
            # one part of the crate is out of reach: decide the rest
            self.error = None
            for f in features:
                b = Batch(self.prop, self.tag + "_" + f, [n for n in self.names if config.HARNESSES[n]["feature"] == f],
                          self.loops_end, self.jobs, self.unwind)
                b.attempt(b.names)
                self.results.update(b.results)
                self.out += b.out
                self.undecided += b.undecided
                self.retry += b.retry
                if b.error:
                    self.undecided.append("%s (%s): %s" % (f, ", ".join(b.names), b.error))

    def attempt(self, names):
        root = os.path.join(HERE, "build", self.prop)
        d = os.path.join(root, self.tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = open(os.path.join(HERE, "kani", "Cargo.toml.in")).read().replace("@REPO@", REPO)
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        shutil.copy(os.path.join(HERE, "kani", "Cargo.lock"), d)
        cmd = ["cargo", "kani", "--features", ",".join(sorted({config.HARNESSES[n]["feature"] for n in names}) + ["g_small"] * self.small),
               "-Z", "unstable-options", "-Z", "stubbing", "--output-format", "terse", "--no-assertion-reach-checks",
               "-j", str(self.jobs), "--export-json", "out.json",
               "--harness-timeout", "%ds" % (min(330, max(30, int(left() - 20))) if TIER == "quick" else 2400),
               "--target-dir", os.path.join(d, "target"), "--exact"]
        if not self.loops_end:
            cmd.append("--no-unwinding-checks")
        if self.unwind is not None:
            cmd += ["--unwind", str(self.unwind)]
        for n in sorted(names, key=lambda n: -config.SLOW.get(n.split("/")[-1].split("::")[-1], 8)):
            cmd += ["--harness", config.HARNESSES[n]["id"]]
        e = env(THINGBUF_VERIF_HOOKS=os.path.join(HERE, "kani", "hooks"), RUSTFLAGS="--cfg thingbuf_verif -Zcrate-attr=feature(allocator_api)")
        self.cmd = "THINGBUF_VERIF_HOOKS=/verif/kani/hooks RUSTFLAGS='--cfg thingbuf_verif -Zcrate-attr=feature(allocator_api)' " + " ".join(cmd)
        rc, self.out = sh(cmd, d, e, max(30, left()))
        if rc is None:
            self.error = "timeout"
        open(os.path.join(d, "out.txt"), "w").write(self.out)
        try:
            j = json.load(open(os.path.join(d, "out.json")))
            self.compiled = True
        except Exception:
            if self.error is None:
                m = re.findall(r"^error.*(?:\n.*){0,6}", self.out, re.M)
                self.error = "not verifiable: " + (m[0] if m else self.out[-600:])
            self.compiled = "Checking harness" in self.out
            return
        stats = {c.get("harness_id"): c.get("cbmc_stats") or {} for c in j.get("cbmc", [])}
        ids = {config.HARNESSES[n]["id"]: n for n in names}
        for r in j["verification_results"]["results"]:
            n = ids.get(r["harness_id"])
            if n is None:
                continue
            self.results[n] = self.judge(n, r, stats.get(r["harness_id"], {}))
        for n in names:
            if n not in self.results:
                self.undecided.append("%s: no result" % n)
                self.retry.append(n)

    def judge(self, n, r, stats):
        panics = config.HARNESSES[n].get("expect_panic")
        st = {"time": r["duration_ms"] / 1000.0, "checks": 0, "discharged": 0, "failed": [], "covers": 0,
              "missing": [], "stats": stats, "undecided": 0}
        cov = {}
        for c in r.get("checks") or []:
            if c["category"] == "cover":
                cov[c["description"]] = cov.get(c["description"], False) or c["status"] == "Satisfied"
                continue
            st["checks"] += 1
            if c["status"] in ("Success", "Unreachable"):
                st["discharged"] += 1
            elif c["status"] == "Failure":
                loc = c.get("location") or {}
                f = {"description": c["description"], "function": c.get("function", ""),
                     "file": loc.get("file", ""), "line": loc.get("line", ""), "category": c["category"]}
                if panics and code(f["description"]) is None:
                    st["checks"] -= 1       # the rejection that is asked for
                else:
                    st["failed"].append(f)
            else:
                st["undecided"] += 1
        st["covers"] = len(cov)
        st["missing"] = sorted(d for d, ok in cov.items() if not ok)
        # a loop that runs longer than the harness allows for: not decided, except
        # where "the loop ends" is the property
        long = [f for f in st["failed"] if f["description"].startswith("unwinding assertion")]
        if long and not (self.prop in config.LOOPS_OF.get(n.split("/")[0], ()) and "/seq_" in n):
            st["failed"] = [f for f in st["failed"] if f not in long]
            self.undecided.append("%s: %s (%s:%s)" % (n, long[0]["description"], long[0]["file"], long[0]["line"]))
            st["missing"] = []
        # constructs Kani cannot handle are a limit of the tool, not a violation
        unsup = [f for f in st["failed"] if is_tool_limit(f)]
        if unsup or not st["checks"] or (st["undecided"] and not st["failed"] and not long):
            self.undecided.append("%s: %s" % (n, unsup[0]["description"] if unsup else r["status"]))
            if unsup:
                st["failed"] = []
            else:
                self.retry.append(n)
            st["missing"] = []
        return st


def sh(cmd, cwd, e, timeout):
    """Run in a process group of its own and leave nothing behind."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out or ""


def is_tool_limit(f):
    d = f["description"]
    return f["category"] in ("unsupported_construct",) or "is not currently supported by Kani" in d


def code(desc):
    m = re.match(r"\s*([A-Z]\d\d)\b", desc)
    return m.group(1) if m else None


def mine(prop, harness, desc):
    """Does a failed obligation concern this property?"""
    if prop == "C13" and "static" in harness:
        return True         # what a static flavour does wrong
    c = code(desc)
    if c is None or c not in config.OBLIGATIONS:
        return True
    return prop in config.OBLIGATIONS[c]


class Bounded:
    """Native driver: enumerates short histories on the public API."""

    def __init__(self, prop, scenarios):
        self.prop, self.scenarios = prop, scenarios
        self.failures, self.error, self.cases, self.samples = [], None, 0, []
        self.per, self.undecided, self.built = {}, [], False

    def run(self):
        d = os.path.join(HERE, "build", self.prop, "bounded")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "bounded"), d, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(d, "Cargo.toml.in")).read().replace("@REPO@", REPO)
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        rc, out = sh(["cargo", "build", "--offline"], d, env(), max(30, left()))
        if rc != 0:
            self.error = "driver does not build: " + out[-800:]
            return
        exe = os.path.join(d, "target", "debug", "bounded")
        self.built = True
        for s in self.scenarios:
            self.one(exe, s)

    def one(self, exe, s):
        depth = config.SCENARIOS[s][0 if TIER == "quick" else 1]
        rc, out = sh([exe, s, str(depth), self.prop], "/", env(), max(30, min(left(), 400 if TIER == "quick" else 3000)))
        if rc is None:
            self.per[s] = {"depth": depth, "undecided": "time"}
            self.undecided.append("scenario %s: time" % s)
            return
        m = re.search(r"^CASES (\d+)", out, re.M)
        n = int(m.group(1)) if m else 0
        self.cases += n
        self.per[s] = {"depth": depth, "histories": n}
        m = re.search(r"^SAMPLE (.*)$", out, re.M)
        if m and m.group(1):
            self.samples.append("%s: %s" % (s, m.group(1)))
        m = re.search(r"^FAIL (\S+) (.*)$", out, re.M)
        if m:
            hist = m.group(2)
            msg = re.findall(r"^REASON (.*)$", out, re.M)
            self.failures.append({"scenario": s, "history": hist, "reason": msg[-1] if msg else out[-300:], "output": out[-4000:],
                                  "cmd": "bounded %s --replay '%s'" % (s, hist)})
        elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
            self.failures.append({"scenario": s, "history": "depth %d" % depth, "reason": "the process died with signal %d (memory corruption)" % -rc,
                                  "output": out[-4000:], "cmd": "bounded %s %d" % (s, depth)})
        elif rc != 0:
            self.undecided.append("scenario %s: exit %d" % (s, rc))


class Sched:
    """Schedule search: small programs over the public API, the crate's shared memory in the loom explorer."""

    def __init__(self, prop, scenarios):
        self.prop, self.scenarios = prop, scenarios
        self.failures, self.error, self.cases, self.samples = [], None, 0, []
        self.per, self.undecided, self.built = {}, [], False

    def run(self):
        d = os.path.join(HERE, "build", self.prop, "sched")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "sched"), d, ignore=shutil.ignore_patterns("target"))
        os.makedirs(os.path.join(d, "thingbuf"))
        for f, t in (("Cargo.toml.in", "Cargo.toml"), ("thingbuf.toml.in", "thingbuf/Cargo.toml")):
            open(os.path.join(d, t), "w").write(open(os.path.join(d, f)).read().replace("@REPO@", REPO))
        e = env(THINGBUF_VERIF_HOOKS=os.path.join(HERE, "sched", "hooks"), RUSTFLAGS="--cfg thingbuf_verif")
        rc, out = sh(["cargo", "build", "--offline"], d, e, max(30, left()))
        if rc != 0:
            self.error = "schedule search does not build: " + out[-800:]
            return
        self.built = True
        exe = os.path.join(d, "target", "debug", "sched")
        todo = list(self.scenarios)

        def work():
            while todo:
                try:
                    s = todo.pop(0)
                except IndexError:
                    return
                self.one(exe, s)
        ths = [threading.Thread(target=work) for _ in range(3 if TIER == "quick" else 6)]
        [t.start() for t in ths]
        [t.join() for t in ths]

    def one(self, exe, s):
        pre, sec = config.SCHED_BOUNDS[TIER]
        rc, out = sh([exe, s, str(pre), str(sec), self.prop], "/", env(), max(20, min(left(), 10 * sec + 60)))
        self.per[s] = {"preemptions": pre, "seconds": sec}
        if rc is None:
            self.undecided.append("schedules of %s: time" % s)
            return
        m = re.search(r"^CASES (\d+)", out, re.M)
        n = int(m.group(1)) if m else 0
        self.cases += n
        self.per[s]["schedules"] = n
        if re.search(r"^FAIL ", out, re.M):
            msg = re.findall(r"^REASON (.*)$", out, re.M)
            hist = re.search(r"^FAIL \S+ (.*)$", out, re.M).group(1)
            self.failures.append({"scenario": "schedule " + s, "history": hist, "reason": msg[-1] if msg else "",
                                  "output": out[-12000:], "cmd": "sched %s %d %d" % (s, pre, sec)})
        elif re.search(r"^UNDECIDED", out, re.M):
            self.undecided.append("schedules of %s: %s" % (s, re.search(r"^UNDECIDED (.*)$", out, re.M).group(1)[:200]))
        elif re.search(r"^OTHER", out, re.M):
            self.undecided.append("schedules of %s: stopped at a failure of another property: %s" % (s, re.search(r"^OTHER (.*)$", out, re.M).group(1)[:200]))
        elif rc != 0:
            self.undecided.append("schedules of %s: exit %s" % (s, rc))


def relevant(prop, reason):
    """The driver tags each of its checks with the properties it belongs to."""
    m = re.match(r"\[([C0-9, ]+)\]", reason)
    return (not m) or prop in m.group(1).replace(" ", "").split(",")


def main():
    prop = sys.argv[1]
    cfg = config.PROPERTIES[prop]
    tier_key = "quick" if TIER == "quick" else "thorough"
    shutil.rmtree(os.path.join(HERE, "build", prop), ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)

    names = list(cfg["harnesses"])
    if tier_key == "thorough":
        names += [n for n in cfg.get("thorough", []) if n not in names]
    cut = [n for n in names if not config.HARNESSES[n]["loops_end"]]
    ending = [n for n in names if config.HARNESSES[n]["loops_end"]]
    je = min(len(ending), 2 if cut else 7)
    if ending and cut and len(ending) > 2 * len(cut):
        je = 4
    batches = []
    if cut:
        batches.append(Batch(prop, "cut", cut, False, 7 - je))
    if ending:
        batches.append(Batch(prop, "ending", ending, True, je))
    again = []
    if tier_key == "thorough":
        # the one-iteration argument once more with two and three iterations
        rg = [n for n in cut if config.HARNESSES[n].get("rg")]
        again = [Batch(prop, "cut%d" % u, rg, False, 4, unwind=u) for u in (2, 3) if rg]
    bounded = Bounded(prop, cfg.get("scenarios", []))
    sched = Sched(prop, cfg.get("sched", []))
    jobs = list(batches) + ([bounded] if bounded.scenarios else []) + ([sched] if sched.scenarios else [])
    ths = [threading.Thread(target=j.run) for j in jobs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for b in again:
        b.run()

    # a branch that one iteration cannot reach may be reachable in more
    for b in batches:
        ns = [n for n, r in b.results.items() if r["missing"] and not r["failed"]]
        if ns and not b.loops_end and left() > 120:
            b2 = Batch(prop, b.tag + "_more", ns, b.loops_end, 7, unwind=3)
            b2.attempt(ns)
            for n in ns:
                if n in b2.results:
                    b.results[n] = b2.results[n]
    # what took too long is looked at once more with small ranges (bounded)
    small = []
    for b in batches:
        if b.retry and left() > 60:
            b2 = Batch(prop, b.tag + "_small", b.retry, b.loops_end, 7, small=True)
            b2.attempt(b.retry)
            small.append(b2)
    groups = batches + again + small

    violations, undecided = [], []
    harnesses, obligations, discharged, covers = {}, 0, 0, 0
    solver = 0.0
    for g in groups:
        if g.error:
            undecided.append("%s: %s" % (g.tag, g.error))
        undecided += ["%s/%s" % (g.tag, u) for u in g.undecided]
        for h, r in sorted(g.results.items()):
            tag = h if g.unwind is None else "%s@unwind%d" % (h, g.unwind)
            if g.small:
                tag += "@small"
            harnesses[tag] = {"checks": r["checks"], "discharged": r["discharged"], "covers": r["covers"],
                              "seconds": round(r["time"], 1), "cbmc": r["stats"]}
            bound = "durations below 4 s, capacity at most 8" if g.small else config.HARNESSES[h].get("bounded")
            if bound:
                harnesses[tag]["bounded"] = bound + " (not counted among the obligations)"
            else:
                obligations += r["checks"]
                discharged += r["discharged"]
            covers += r["covers"]
            solver += r["time"]
            bad = [f for f in r["failed"] if mine(prop, h, f["description"])]
            if bad:
                violations.append(("obligation", tag, bad, g))
            elif r["missing"] and not r["failed"] and g.unwind is None and not g.small:
                undecided.append("%s: outcome not reached: %s" % (tag, "; ".join(r["missing"])))
    if bounded.error:
        undecided.append("bounded driver: " + bounded.error)
    if sched.error:
        undecided.append(sched.error)
    undecided += bounded.undecided + sched.undecided
    concrete = [f for f in bounded.failures + sched.failures if relevant(prop, f["reason"])]

    known = load_known(prop)
    lines = []
    if violations or concrete:
        rp = os.path.join(HERE, "evidence", "replay", prop + ".txt")
        with open(rp, "w") as f:
            f.write("property %s (%s)\n\n" % (prop, cfg["title"]))
            for c in concrete:
                f.write("FAILING INPUT on the real code: scenario %s history %s\n  %s\n  replay: %s\n%s\n\n" %
                        (c["scenario"], c["history"], c["reason"], c["cmd"], c["output"]))
            for kind, h, bad, g in violations:
                f.write("failed %s in harness %s\n  verifier: %s\n" % (kind, h, g.cmd))
                for b in bad:
                    f.write("  obligation: %s\n    in %s (%s:%s)\n" % (b["description"], b["function"], b["file"], b["line"]))
                m = re.search(r"(Checking harness [^\n]*%s\.\.\.(?:.*\n){0,60})" % re.escape(h.split("@")[0].split("/")[-1]), g.out)
                f.write("  verifier output:\n%s\n\n" % (m.group(1)[:4000] if m else g.out[-3000:]))
        for kind, h, bad, g in violations:
            for b in bad[:6]:
                log("failed obligation [%s]: %s  (%s:%s)" % (h, b["description"], b["file"], b["line"]))
        for c in concrete:
            log("failing input [%s]: %s -- %s" % (c["scenario"], c["history"], c["reason"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if concrete else " no-failing-input-found"))

    ev = {
        "property": prop, "tier": tier_key, "seed": SEED, "level": cfg["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(g.cmd for g in groups)[:4000],
            "back_end": "Kani (CBMC, bit-precise SAT), one obligation per check",
            "verifier_seconds": round(solver, 1),
            "harnesses": harnesses,
            "reachability_covers_satisfied": covers - sum(len(r["missing"]) for g in groups for r in g.results.values()),
            "functions_under_contract": cfg["functions"],
            "trusted_base": config.TRUSTED + cfg.get("trusted", []),
            "bounded_standins": {"scenarios": bounded.per, "histories": bounded.cases, "samples": bounded.samples[:4],
                                 "schedule_search": sched.per, "schedules": sched.cases,
                                 "note": "bounded, never counted as proved"},
            "undecided": undecided,
            "evaluations": bounded.cases + sched.cases,
        },
        "assumptions": config.ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": len(violations) + len(concrete),
    }
    if cfg["level"] != "proof":
        ev["coverage"]["explanation"] = cfg["note"]
        ev["coverage"]["samples"] = bounded.samples[:4] or ["-"]
        ev["coverage"]["rule"] = "every history of the stated length over the scenario's operations"
        ev["coverage"]["distinct_nontrivial"] = bounded.cases
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for u in undecided:
        log("undecided: " + u[:400])
    log("%s: %d obligations, %d discharged, %d bounded histories, %d bounded schedules, %.0f s" % (prop, obligations, discharged, bounded.cases, sched.cases, time.time() - START))
    for k in known:
        log(k)
    for l in lines:
        log(l)
    if not harnesses and not bounded.built and not sched.built:
        log("nothing could be decided")
        sys.exit(2)
    if os.environ.get("VERIF_KEEP") != "1":
        shutil.rmtree(os.path.join(HERE, "build", prop), ignore_errors=True)
    sys.exit(1 if lines else 0)


def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            if l.startswith("known: property=%s " % prop):
                out.append("KNOWN-FINDING: " + l[len("known: "):].strip())
    except OSError:
        pass
    return out


if __name__ == "__main__":
    main()
