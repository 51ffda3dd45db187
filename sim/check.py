#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs of ecgen.

  check.py C06 [quick|thorough]      explore, write evidence/C06.json
  check.py --replay FILE             reproduce a reported violation exactly

Exit 0: held on everything explored. Exit 1: VIOLATION lines. Anything else: error."""
import collections, hashlib, json, multiprocessing as mp, os, queue, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, checks, client, dst

WALL = {"quick": 300, "thorough": 5400}   # no new scenarios after this many seconds
KNOWN = os.path.join(ROOT, "KNOWN-FINDINGS.txt")


# ------------------------------------------------------------------ judging
def verdict(R, judge, c, prop):
    """[(class, detail)] of this property"""
    try:
        vs = checks.JUDGES[judge](R, c)
    except client.Slow:
        if "watchdog" in c["knobs"]:
            raise           # a large case, for which there was no time
        return [("hang", "the run computes without end: nothing it does can be seen after a minute")]
    except (client.SimError, OSError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return [("unjudgeable", "what the run wrote can not be interpreted: %s: %s (%s:%d)" % (
            type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))]
    out, seen = [], set()
    for p, cls, d in vs:
        if p == prop and cls not in seen:
            seen.add(cls)
            out.append((cls, d))
    return out


def case_key(judge, c, cls):
    s = json.dumps([judge, cls, c["spec"], c.get("stdin"), c["files"], c["faults"], c["dec"], c["sched"]], sort_keys=True)
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def known():
    """{(property, key): text}; lines are `finding: property=C01 key=... text` and `fixed: ...`"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            w = l.split(None, 3)
            if l.startswith("finding:") and len(w) == 4:
                out[w[1].split("=")[1], w[2].split("=")[1]] = w[3].strip()
    return out


# ------------------------------------------------------------------ workers
def worker(k, binary, prop, seed, tier, total, nxt, stop, q, deadline):
    R = dst.Runner(binary)
    done = nontrivial = errors = late = 0
    judges = collections.Counter()
    hist = set()
    slow = []
    try:
        while not stop.value and time.time() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= total:
                break
            h0, r0 = len(R.hashes), R.runs
            t0 = time.time()
            try:
                judge, c = checks.scenario(prop, seed, i, tier)
                v = verdict(R, judge, c, prop)
            except client.Slow:
                late += 1
                continue
            except client.SimError as e:
                errors += 1
                q.put(("err", i, str(e)[:600]))
                R.sim.stop()
                continue
            done += 1
            judges[judge] += 1
            if len(R.hashes) > h0:
                nontrivial += 1
            slow.append((time.time() - t0, i))
            if v:
                q.put(("viol", i, judge, c, v))
    except Exception:
        q.put(("fatal", k, traceback.format_exc()[-2000:]))
    slow.sort(reverse=True)
    q.put(("done", k, {"done": done, "nontrivial": nontrivial, "errors": errors, "late": late, "judges": judges, "runs": R.runs,
                       "clock": R.clock, "ticks": R.ticks, "hashes": R.hashes, "scheds": R.sched_hashes,
                       "fired": R.fired, "outcomes": R.outcomes, "slow": slow[:3]}))
    R.close()


def explore(binary, prop, seed, tier, total, nproc, deadline):
    ctx = mp.get_context("fork")
    nxt, stop, q = ctx.Value("l", 0), ctx.Value("b", 0), ctx.Queue()
    ps = [ctx.Process(target=worker, args=(k, binary, prop, seed, tier, total, nxt, stop, q, deadline)) for k in range(nproc)]
    for p in ps:
        p.start()
    left, viols, errs, stats = nproc, [], [], []
    while left:
        try:
            m = q.get(timeout=30)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                errs.append("a worker process died")
                break
            continue
        if m[0] == "viol":
            viols.append(m[1:])
            if len(viols) >= 3:
                stop.value = 1
        elif m[0] == "err":
            errs.append("scenario %d: %s" % m[1:])
        elif m[0] == "fatal":
            errs.append(m[2])
            left_fatal = True
        else:
            left -= 1
            stats.append(m[2])
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    return viols, errs, stats


# ------------------------------------------------------------------ violations
def confirm(binary, prop, judge, c, cls):
    """twice, each in a fresh simulator: the same violation and the same event log"""
    got = []
    for _ in range(2):
        R = dst.Runner(binary)
        try:
            v = verdict(R, judge, c, prop)
            got.append((sorted(x for x, _ in v), run_of(R, c).hash, sorted(R.hashes)))
        finally:
            R.close()
    return got[0] == got[1] and cls in got[0][0], got[0][1]


class Endless:
    """stands for a run that was stopped from outside"""
    hash, out, err, outcome = 0, b"", b"", "SLOW"

    def summary(self):
        return "no end"


def run_of(R, c):
    try:
        return R.run(c)
    except client.Slow:
        return Endless()


def minimise(binary, prop, judge, c, cls, limit, wall):
    R = dst.Runner(binary)
    end = time.time() + wall
    used = [0]

    def bad(x):
        if used[0] >= limit or time.time() > end:
            return False
        used[0] += 1
        try:
            return any(k == cls for k, _ in verdict(R, judge, x, prop))
        except (client.SimError, client.Slow, OSError):
            R.sim.stop()
            return False
    try:
        if c["faults"]:
            c = dst.with_(c, faults=dst.ddmin(list(c["faults"]), lambda f: bad(dst.with_(c, faults=f)), 60))
        for k in ("memfill", "place", "pid", "reuse", "realtime", "tickns"):
            if c["knobs"].get(k) is not None:
                x = dict(c, knobs={a: b for a, b in c["knobs"].items() if a != k})
                if bad(x):
                    c = x
        if c["sched"]:
            x = dst.with_(c, sched="")
            if bad(x):
                c = x
            else:
                q = run_of(R, c)
                if q.outcome != "SLOW":
                    x = dst.explicit(c, q)
                    if bad(x):
                        c = x
        if c["dec"]:
            c = dst.with_(c, dec=dst.ddmin(list(c["dec"]), lambda f: bad(dst.with_(c, dec=f)), 120))
        for k in ("metadata", "hex", "verbose", "append", "points", "unique", "prime", "timeout"):
            if c["spec"].get(k) and k != "points":
                x = dict(c, spec={a: b for a, b in c["spec"].items() if a != k})
                if bad(x):
                    c = x
        return c, used[0]
    finally:
        R.close()


def replay_dir():
    d = os.path.join(ROOT, "build", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def report(binary, prop, seed, tier, i, judge, c, v, findings):
    """'' for a known finding, the path of the replay file for a violation"""
    cls, detail = v[0]
    ok, h = confirm(binary, prop, judge, c, cls)
    if not ok:
        print("ERROR property=%s scenario %d: %s is not reproducible" % (prop, i, cls))
        return None
    m, used = minimise(binary, prop, judge, c, cls, 220, 90)
    ok2, h2 = confirm(binary, prop, judge, m, cls)
    if not ok2:
        m, h2 = c, h
    key = case_key(judge, m, cls)
    if (prop, key) in findings:
        return ""
    R = dst.Runner(binary)
    det = dict(verdict(R, judge, m, prop)).get(cls, detail)
    r = run_of(R, m)
    R.close()
    path = os.path.join(replay_dir(), "%s-%s.json" % (prop, key))
    with open(path, "w") as f:
        json.dump({"property": prop, "class": cls, "detail": det, "judge": judge, "case": m, "hash": "%016x" % h2,
                   "seed": seed, "scenario": i, "tier": tier, "found_as": c, "command": ["ecgen"] + dst.argv(m["spec"]),
                   "outcome": r.summary(), "stdin": bytes.fromhex(m.get("stdin") or "").decode("latin-1")[:2000],
                   "stdout": r.out.decode("latin-1")[-4000:], "stderr": r.err.decode("latin-1")[-1500:],
                   "minimisation_runs": used, "key": key}, f, indent=1, default=str)
    print("  scenario %d of seed %s (%s), class %s: %s" % (i, seed, judge, cls, det))
    print("  command: %s" % " ".join(["ecgen"] + dst.argv(m["spec"])))
    print("  injected: %s%s; run hash %016x" % ("; ".join(m["faults"]) or "nothing", " + %d scheduling decisions" % len(m["dec"]) if m["dec"] else
                                                 " + schedule " + m["sched"] if m["sched"] else "", h2))
    return path


def replay(path):
    d = json.load(open(path))
    binary = build.build()
    R = dst.Runner(binary)
    c = d["case"]
    v = verdict(R, d["judge"], c, d["property"])
    r = run_of(R, c)
    R.close()
    same = "%016x" % r.hash == d["hash"]
    print("run hash %016x (%s the report), %s" % (r.hash, "as in" if same else "differs from", r.summary()))
    for cls, det in v:
        print("  %s: %s" % (cls, det))
    if any(cls == d["class"] for cls, _ in v):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


# ------------------------------------------------------------------ main
def selftest(binary, prop, seed, tier, n=6):
    """the same scenarios in two fresh simulators: identical event logs"""
    logs = []
    for _ in range(2):
        R = dst.Runner(binary)
        log = []
        for i in range(n):
            judge, c = checks.scenario(prop, seed, i, tier)
            try:
                r = R.run(c)
                log.append((r.hash, r.status, r.raw))
            except (client.SimError, client.Slow) as e:
                log.append(str(e)[:60])
        R.close()
        logs.append(log)
    return logs[0] == logs[1]


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    binary = build.build()
    total = checks.PROPS[prop][1 if tier == "quick" else 2]
    if os.environ.get("SIM_CASES"):
        total = int(os.environ["SIM_CASES"])
    nproc = max(1, min(16, len(os.sched_getaffinity(0))))
    t1 = time.time()
    if not selftest(binary, prop, seed, tier):
        print("ERROR property=%s: the simulator is not deterministic" % prop)
        return 3
    cov = os.path.join(build.OUT, "cov-%d" % os.getpid())
    os.environ["SIM_COV"] = cov
    viols, errs, stats = explore(binary, prop, seed, tier, total, nproc, t1 + WALL[tier])
    del os.environ["SIM_COV"]
    blocks = None
    try:
        with open(cov, "rb") as f:
            d = f.read()
        blocks = {"reached": len(d) - d.count(0), "of": int(open(binary + ".blocks").read())}
        os.unlink(cov)
    except (OSError, ValueError):
        pass
    findings = known()
    rc, nviol, seen = 0, 0, set()
    for i, judge, c, v in sorted(viols, key=lambda x: x[0]):
        if v[0][0] in seen and nviol:
            continue
        try:
            p = report(binary, prop, seed, tier, i, judge, c, v, findings)
        except (client.SimError, client.Slow, OSError) as e:
            print("ERROR property=%s scenario %d: %s" % (prop, i, e))
            p = None
        if p is None:
            rc = rc or 3
        elif p:
            seen.add(v[0][0])
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
            rc = 1
            if nviol >= 2:
                break
    for (p, key), what in known().items():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    wall = time.time() - t0
    A = {k: sum(s[k] for s in stats) for k in ("done", "nontrivial", "errors", "late", "runs", "clock", "ticks")}
    hashes, scheds = set().union(*[s["hashes"] for s in stats], set()), set().union(*[s["scheds"] for s in stats], set())
    fired, outcomes, judges = collections.Counter(), collections.Counter(), collections.Counter()
    for s in stats:
        fired.update(s["fired"])
        outcomes.update(s["outcomes"])
        judges.update(s["judges"])
    if A["errors"] > max(3, A["done"] // 20) or not A["done"]:
        for e in errs[:3]:
            sys.stderr.write(e + "\n")
        rc = rc or 3
    samples = []
    for i in (0, 1, 2):
        judge, c = checks.scenario(prop, seed, i, tier)
        samples.append({"scenario": i, "judge": judge, "command": " ".join(["ecgen"] + dst.argv(c["spec"])), "faults": c["faults"],
                        "sched": c["sched"], "knobs": c["knobs"], "stdin": bytes.fromhex(c.get("stdin") or "")[:200].decode("latin-1")})
    ex = max(time.time() - t1, .001)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(seed), "level": "exploration",
          "coverage": {
              "evaluations": A["done"],
              "distinct_nontrivial": A["nontrivial"],
              "rule": "a scenario is a seeded command line, input, entropy, fault plan and schedule; it counts when at least one of its runs "
                      "gave an event log (inputs, outputs, opens, timers, faults, schedule) that its worker had not seen before",
              "samples": samples,
              "planned": total,
              "runs": A["runs"],
              "runs_per_hour": int(A["runs"] / ex * 3600),
              "seeds_per_hour": int(A["done"] / ex * 3600),
              "simulated_seconds": round(A["clock"] / 1e9, 1),
              "simulated_steps": A["ticks"],
              "distinct_event_logs": len(hashes),
              "distinct_schedules": len(scheds),
              "code_blocks": blocks,
              "faults_fired": dict(fired.most_common()),
              "run_outcomes": dict(outcomes.most_common(12)),
              "judges": dict(judges),
              "simulator_errors": A["errors"],
              "given_up_as_too_slow": A["late"],
              "determinism_selftest": "6 scenarios twice in fresh simulators: identical logs",
              "real_code": "all of /repo/src, parson, sha1, libpari (static) and GMP, glibc stdio",
              "stubs": "scheduler, mutexes, conditions, threads' interleaving, clocks, POSIX timers and signals, files and standard "
                       "streams below stdio, /dev/urandom, malloc and its failures",
          },
          "assumptions": ["the instrumented build behaves as the shipped one (same sources, -O2, thread switches at memory accesses and PARI calls)",
                          "PARI's arithmetic is trusted inside ecgen; verdicts use independent Python arithmetic"],
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    slow = sorted((x for s in stats for x in s["slow"]), reverse=True)[:3]
    print("%s %s: %d scenarios, %d runs, %d distinct logs, %d schedules, %.0f simulated s, %.1f s; %d violations, %d simulator errors, %d too slow%s" % (
        prop, tier, A["done"], A["runs"], len(hashes), len(scheds), A["clock"] / 1e9, wall, nviol, A["errors"], A["late"],
        "; slowest %s" % [(round(t, 1), i) for t, i in slow] if os.environ.get("SIM_DEBUG_SLOW") else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
