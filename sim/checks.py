"""The properties: for each, seeded scenarios (workload + faults + schedule) and
the judge that decides them. A judge is a function of (runner, case) that gives
a list of (property, class, detail); the classes are what minimisation keeps."""
import functools, json, math, os, random, struct
import dst, ec, models, oracle, work
from dst import case, with_

T9 = 10 ** 9
BUDGET = 30_000_000


def mk(spec, stdin=None, rng=None, **kw):
    if spec["bits"] > 62:
        kw.setdefault("budget", (300 if spec["bits"] <= 100 else 800) * 10 ** 6)
    if spec["bits"] > 100 and spec.get("method") != "order":
        # sizes of real curves: whatever takes too long is left undecided
        kw.setdefault("watchdog", 15000)
    kw.setdefault("budget", BUDGET)
    if rng is not None:
        kw.setdefault("entropy", rng.randrange(1, 1 << 40))
    return case(spec, stdin=stdin, **kw)


def ended(r):
    return r.outcome == "END"


def clean(c):
    """the case without faults, disturbances or a schedule"""
    k = {x: c["knobs"][x] for x in ("entropy", "nproc", "budget", "watchdog") if x in c["knobs"]}
    return dict(c, faults=[], sched="", dec=[], knobs=k)


def base(R, c, **kw):
    """a memoised reference run"""
    b = with_(clean(c), **kw) if kw else clean(c)
    key = dst.plan(b)
    m = R.__dict__.setdefault("memo", {})
    if key not in m:
        if len(m) > 40:
            m.clear()
        m[key] = R.run(b)
    return m[key]


def text(r, c):
    """the document the run wrote"""
    p = c["spec"].get("output")
    d = r.file(p) if p else r.out
    return (d or b"").decode("latin-1")


def internal(r):
    """signs of an error inside the program; none of them is ever right"""
    out = []
    if r.outcome == "DEADLOCK":
        out.append(("deadlock", "no thread can run any more: " + r.note))
    if r.outcome == "STUCK":
        out.append(("stuck", "the process stopped making progress"))
    if ended(r) and r.sig:
        out.append(("signal", "killed by signal %d" % r.sig))
    err = r.err
    for pat, cls in ((b"Segmentation Fault", "segfault"), (b"bug in PARI", "pari-bug"), (b"Floating point exception", "fpe"),
                     (b"No args to an arged function", "args"), (b"Broken Pipe, resetting", "sigpipe")):
        if pat in err:
            out.append((cls, "standard error says %r" % err[-120:]))
            break
    for t, th, tick, clk, a, b, d in r.ev:
        if t == "B":
            if a < 2:
                out.append(("double-free" if a else "bad-free", "thread %d freed memory it does not own at tick %d" % (th, tick)))
            else:
                out.append(("bad-" + ("read", "write", "overrun", "index")[a - 2],
                            "thread %d %s at tick %d" % (th, ("read memory that is not in use", "wrote memory that is not in use",
                                                               "wrote past the end of a block", "used an index out of bounds")[a - 2], tick)))
            break
        if t == "Q":
            out.append(("misuse", "misuse %d of a lock, condition, thread or timer by thread %d at tick %d" % (a, th, tick)))
            break
    return out


def races(r, P):
    """accesses of two threads to the same memory, at least one a write, that nothing orders"""
    for t, th, tick, clk, a, b, d in r.ev:
        if t == "y":
            pc, opc, wr, owr = struct.unpack("4I", d)
            return [(P, "race", "thread %d %s, at code offset %#x, what thread %d %s, at %#x, with no order between them (tick %d)" % (
                th, "writes" if wr else "reads", pc, a, "wrote" if owr else "read", opc, tick))]
    return []


# ------------------------------------------------------------------ judges
JUDGES = {}


def judge(f):
    JUDGES[f.__name__] = f
    return f


COUNTED = (None, "ansi", "twist", "brainpool", "brainpool-rfc", "anomalous", "supersingular")


@judge
def oracle_(R, c):
    """everything a run emits, against the mathematics"""
    r = R.run(c)
    out = judged(r, c)
    if ended(r) and r.exit != 0 and not ran_out(r):
        # nothing but the end of the input can keep these from succeeding
        d = "%s: %r" % (r.summary(), r.err[-160:])
        out += [(P, "exit", d) for P in ("C01", "C02", "C03", "C04", "C07", "C20", "C26")]
    return out


def ran_out(r):
    """did the run read the end of its input"""
    return any(t == "R" and b == 0 for t, th, tick, clk, a, b, d in r.ev)


def judged(r, c, role="normal"):
    s = c["spec"]
    out = [("C26", cls, d) for cls, d in internal(r)]
    t = text(r, c)
    es, end = oracle.entries(t)
    if end.startswith("bad"):
        out.append(("C07", "malformed", end))
    elif ended(r) and r.exit == 0:
        if end != "whole":
            out.append(("C07", "incomplete", "exit 0 with a document that is %s" % end))
        elif s.get("method") in COUNTED and len(es) != s.get("count", 1):
            out.append(("C04", "count", "%d curves, %d asked for" % (len(es), s.get("count", 1))))
    for o in es:
        v, cur = oracle.curve(s, o, role)
        out += v
        if cur is not None and not any(x[0] in ("C07", "C01") for x in v):
            out += special(s, c, cur)
    return out


def special(s, c, cur):
    """what the generation methods promise beyond a valid curve"""
    m = s.get("method")
    out = []
    if m == "anomalous" and cur.order != cur.q:
        out.append(("C18", "anomalous", "order %#x of an anomalous curve over a field of %#x elements" % (cur.order, cur.q)))
    if m == "supersingular":
        if cur.order != cur.q + 1:
            out.append(("C18", "supersingular", "order %#x of a supersingular curve over a field of %#x elements" % (cur.order, cur.q)))
    if m in ("anomalous", "supersingular") and (s.get("random") and cur.q.bit_length() != s["bits"]):
        out.append(("C18", "bits", "field of %d bits, not %d" % (cur.q.bit_length(), s["bits"])))
    if m == "order":
        n = 1
        for x in s["order"].split(","):
            n *= int(x, 0)
        if cur.order != n:
            out.append(("C17", "order", "order %d, not %d" % (cur.order, n)))
    if m == "family":
        out += family_judge(s, c, cur)
    return out


def number(l):
    """a number as ecgen reads it, whatever zeros it begins with"""
    l = l.strip()
    x = l.lstrip("-")
    n = int(x, 16) if x[:2].lower() == "0x" else int(x.lstrip("0") or "0")
    return -n if l[:1] == "-" else n


def inputs(c):
    """the numbers on standard input"""
    out = []
    for l in bytes.fromhex(c.get("stdin") or "").decode().split("\n"):
        try:
            out.append(number(l))
        except ValueError:
            pass
    return out


def family_judge(s, c, cur):
    out = []
    if cur.seed is None:
        return [("C19", "seed", "no seed")]
    sg = cur.seed.startswith("-")
    z = int(cur.seed.lstrip("-"), 16) * (-1 if sg else 1)
    p, r, k = models.family_params(s["family"], z)
    if p is None or p != cur.p:
        out.append(("C19", "field", "p is %#x, the parameter %d gives %r" % (cur.p, z, p)))
    elif r is None or not oracle.is_prime(r) or cur.order % r:
        out.append(("C19", "order", "order %#x is not a multiple of the prime r = %r" % (cur.order, r)))
    elif pow(p, k, r) != 1:
        out.append(("C19", "embedding", "p^%d is not 1 modulo r" % k))
    if c.get("stdin") and not s.get("random") and inputs(c) and z not in inputs(c):
        out.append(("C19", "seed", "seed %d was not given" % z))
    if cur.a != 0 and s["family"] in ("BN", "BLS12", "BLS24", "KSS18", "KSS36"):
        out.append(("C19", "a", "a is %#x" % cur.a))
    return out


def doc_of(R, c):
    b = base(R, c)
    return b, text(b, c)


@judge
def same(R, c):
    """the disturbed run gives what the undisturbed one gives"""
    b = base(R, c)
    if not ended(b):
        return []
    r = R.run(c)
    P = c.get("prop", "C25")
    if not ended(r):
        return [(P, "hang", "%s, undisturbed: %s" % (r.summary(), b.summary()))]
    if r.status != b.status:
        return [(P, "exit", "%s, undisturbed: %s" % (r.summary(), b.summary()))]
    if text(r, c) != text(b, c):
        return [(P, "output", diff(text(b, c), text(r, c)))]
    return [(P, cls, d) for cls, d in internal(r)]


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "output differs from the reference at byte %d: %r instead of %r (lengths %d, %d)" % (
        i, b[i:i + 30], a[i:i + 30], len(b), len(a))


# ------------------------------------------------------------------ generation (C01-C04, C07, C20, C26)
def timeouts(rng, c, n=3):
    """let heavy computations hang or stall beyond the timeout"""
    T = rng.choice([1, 2, 60, 3600])
    s = dict(c["spec"], timeout=rng.choice(["%d", "%ds"]) % T if T < 60 else {60: "1m", 3600: "1h"}[T])
    f = []
    for _ in range(rng.randrange(1, n + 1)):
        if rng.random() < .7:
            f.append("hang %d" % rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(40)]))
        else:
            f.append("stall %d %d" % (rng.randrange(1, 60000), (T + 1) * T9))
    return with_(c, spec=s, faults=c["faults"] + f)


def generation(weights, tprob=.25, tune=None):
    def gen(rng, tier):
        s, inp = work.any_method(rng, weights)
        if tune:
            tune(rng, s)
        c = work.benign(rng, mk(s, inp, rng))
        if s.get("method") == "order":
            c["knobs"]["budget"] = 6_000_000
        if rng.random() < tprob and s.get("method") not in ("anomalous", "supersingular", "order", "nums", "family"):
            c = timeouts(rng, c)
        return "oracle_", c
    return gen


def tune_points(rng, s):
    if rng.random() < .8 and s["bits"] < 44:
        s["points"] = work.points(rng)


def sc_unique(rng, tier):
    """many small curves, each with one generator"""
    s = {"field": "p" if rng.random() < .8 else "2", "random": "all", "unique": 1, "bits": rng.randrange(5, 15),
         "count": rng.randrange(10, 80), "points": rng.choice(["none", "none", "random", "prime"])}
    if s["field"] == "2":
        s["count"] = min(s["count"], 20)
    c = work.benign(rng, mk(s, None, rng))
    if rng.random() < .2:
        c = timeouts(rng, c)
    return "oracle_", c


def sc_small(rng, tier):
    """many small curves, and any points of them: among them those with generators of order two"""
    s = {"field": "p", "random": "all", "bits": rng.randrange(5, 10), "count": rng.randrange(20, 120),
         "points": rng.choice(["random", "%drandom" % rng.randrange(1, 9), "%drandom" % rng.randrange(1, 30), "prime", "all", "nonprime"])}
    return "oracle_", work.benign(rng, mk(s, None, rng))


def sc_square(rng, tier):
    s, it = work.square(rng)
    return "oracle_", work.benign(rng, mk(s, work.lines(rng, *it), rng))


def tune_meta(rng, s):
    if (s["bits"] > 5 or s.get("method")) and s["bits"] < 162:
        s["metadata"] = 1


def tune_constraint(rng, s):
    if s.get("method") is None and s.get("koblitz") is None and not s.get("hex") and rng.random() < .3 or (
            s.get("method") in ("ansi", "supersingular", "anomalous", "twist") and not s.get("seed") and rng.random() < .3):
        s["hex"] = rng.choice(["%x", "0x%02x", "%X", "0X%02x", "%03x"]) % rng.randrange(256)
        if s.get("random") == "all":
            s["bits"] = max(9, s["bits"])


def sc_twist_retry(rng, tier):
    """twists and inputs under constraints: rejected curves are replaced by the next input"""
    return None


# ------------------------------------------------------------------ input-driven model (C04, C11)
def model_emits(spec, items):
    """which of the input curves are emitted, per the documentation"""
    out = []
    for it in items:
        if spec["field"] == "p":
            p, a, b = it
            E = ec.FpCurve(p, a % p, b % p)
            key = (p, a % p, b % p)
        else:
            m, e1, e2, e3, a, b = it
            E = ec.F2mCurve(ec.F2m(m, [x for x in (e1, e2, e3) if x]), a, b)
            key = (m, (e1, e2, e3), a, b)
        if E.singular():
            continue
        N = ec.group_order(E) if spec["field"] == "p" else None
        if spec.get("prime") and not ec.is_prime(N):
            continue
        if spec.get("cofactor") and (N % spec["cofactor"] or not ec.is_prime(N // spec["cofactor"])):
            continue
        if spec.get("smooth") and N > 1 and max(x.bit_length() for x in ec.factor(N)) > spec["smooth"]:
            continue
        if spec.get("unique"):
            if not ec.is_cyclic(E, N):
                continue
        out.append(key)
    return out[:spec.get("count", 1)]


def keyof(cur):
    return (cur.p, cur.a, cur.b) if cur.fkey[0] == "p" else (cur.m, tuple(cur.e), cur.a, cur.b)


@judge
def filter_(R, c):
    """curves given on the input come out in order, exactly those that satisfy the constraints"""
    s = c["spec"]
    want = model_emits(s, [tuple(x) for x in c["items"]])
    r = R.run(c)
    P = c.get("prop", "C04")
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", "did not end after the input was exhausted: " + r.summary())]
    es, end = oracle.entries(text(r, c))
    if end != "whole":
        out.append((P, "document", "the document is %s" % end))
        return out
    got = []
    for o in es:
        try:
            got.append(keyof(oracle.parse(s, o)))
        except oracle.Bad as e:
            return out + [(P, "form", str(e))]
    if got != want:
        out.append((P, "curves", "emitted %s, expected %s" % (got[:4], want[:4])))
    ok = len(want) == s.get("count", 1)
    if (r.exit == 0) != ok:
        out.append((P, "exit", "%s with %d of %d curves possible" % (r.summary(), len(want), s.get("count", 1))))
    return out


JUNK_P = [b"\n", b"4\n", b"1\n", b"0\n", b"15\n", b"0x10\n", b"99999999999999999999999999999999999999999\n"]


def junk_ab(rng, bits):
    """what is asked for again instead of a coefficient"""
    k = rng.random()
    if k < .5:
        x = (1 << bits) + (rng.choice([1, 2, 3]) if rng.random() < .4 else rng.randrange(1, 1 << bits))
    elif k < .8:
        x = rng.randrange((1 << bits) + 1, 1 << (bits + rng.choice([1, 2, 8, 64, 200])) + 1)
    else:
        return rng.choice([b"\n", b"x\n", b"-\n", b"0x\n", b"12 13\n", b"1.5\n", b"0b2\n", b"12a\n", b"--1\n"])
    return work.lines(rng, x)


def sc_filter(rng, tier, prop="C04"):
    f = "p" if rng.random() < .8 else "2"
    big = rng.random() < .08
    bits = work.lsize(rng, 26, 90) if big else rng.randrange(5, 26) if f == "p" else rng.randrange(5, 20)
    s = {"field": f, "bits": bits, "points": rng.choice(["none", "random"] if big else ["none", "prime", "random"])}
    n = rng.randrange(1, 14)
    s["count"] = rng.randrange(1, 6)
    if f == "p":
        k = rng.random()
        if k < .25:
            s["prime"] = 1
        elif k < .45:
            s["cofactor"] = rng.choice([2, 3, 4, 5, 6])
        elif k < .65:
            s["smooth"] = rng.randrange(max(2, bits // 3), bits + 1)
        elif k < .8:
            s["unique"] = 1
    items, inp = [], b""
    for _ in range(n):
        if f == "p":
            it = work.fp_curve(rng, bits)
            if rng.random() < .1:
                it = (it[0], 0, 0) if rng.random() < .5 else (it[0], it[0] - 3, 2)
            sign = rng.random() < .2
            w = (it[0], it[1] - it[0] if sign else it[1], it[2])
            if rng.random() < .15:
                inp += rng.choice(JUNK_P)
        else:
            it = w = work.f2m_curve(rng, bits)
        items.append(it)
        for i, x in enumerate(w):
            if i >= len(w) - 2 and rng.random() < .12:
                inp += junk_ab(rng, bits)
            inp += work.lines(rng, x)
    c = mk(s, inp, rng)
    c["items"] = items
    c["prop"] = prop
    c = work.benign(rng, c)
    return "filter_", c


# ------------------------------------------------------------------ invalid curves (C05, C06)
def range_primes(s, N, n=None):
    r = s.get("range")
    if r and "-" in r:
        lo, hi = map(int, r.split("-"))
        return [q for q in range(max(2, lo), hi + 1) if ec.is_prime(q)], True
    if r:
        return [q for q in (int(r),) if ec.is_prime(q)], True
    out, prod, q = [], 1, 1
    while prod <= N * N:
        q += 1
        while not ec.is_prime(q):
            q += 1
        out.append(q)
        prod *= q
    return out, False


@judge
def invalid_(R, c):
    r = R.run(c)
    P = c.get("prop", "C05")
    return invalid_verdict(r, c, P)


def invalid_verdict(r, c, P):
    s = c["spec"]
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET":
        out.append((P, "hang", "no end after %d steps" % r.cnt["ticks"]))
    out += races(r, P)
    es, end = oracle.entries(text(r, c))
    none = not range_primes(s, 1)[0]
    if ended(r) and r.exit != 0 and not c.get("may_fail") and not none:
        out.append((P, "exit", "%s: %r" % (r.summary(), r.err[-160:])))
    if ended(r) and none and es and (end != "whole" or len(es) != 1):
        out.append((P, "document", "%s: no primes are asked for, and the document is %s with %d entries" % (r.summary(), end, len(es))))
    if end.startswith("bad"):
        return out + [(P, "document", end)]
    if ended(r) and r.exit == 0 and end != "whole":
        return out + [(P, "document", "exit 0 with a document that is " + end)]
    if not es:
        return out
    v, orig = oracle.curve(s, es[0], "invalid_orig")
    out += [(P, "original-" + x[1], x[2]) for x in v]
    if orig is None or v:
        return out
    if c.get("items"):
        if keyof(orig) != keyof_item(s, c["items"]):
            out.append((P, "original", "the first curve is not the one given"))
    primes, exact = range_primes(s, orig.order)
    if not exact and len(es) - 1 == len(primes) + 1:
        # the product has to exceed the order squared, one more prime does no harm
        primes.append(next(q for q in range(primes[-1] + 1, 2 * primes[-1] + 2) if ec.is_prime(q)))
    left = set(primes)
    groups, order = {}, []
    for o in es[1:]:
        t = json.dumps(o, sort_keys=True)
        if t not in groups:
            groups[t] = [0, o]
            order.append(t)
        groups[t][0] += 1
    covered = set()
    n = len(es) - 1
    bs = {}
    for t in order:
        m, o = groups[t]
        v, cur = oracle.curve(s, o, "invalid")
        out += [(P, "curve-" + x[1], x[2]) for x in v]
        if cur is None or v:
            return out
        if cur.fkey != orig.fkey or cur.a != orig.a:
            return out + [(P, "parameters", "an invalid curve does not share the field and a of the original")]
        pts = [(q, Pt) for g in cur.gens for Pt, q in g.points]
        new = set()
        for q, Pt in pts:
            if not cur.E.on(Pt) or not oracle.exact_order(cur.E, Pt, q):
                return out + [(P, "point", "a point on an invalid curve does not have its order %d" % q)]
            if q not in left:
                return out + [(P, "point", "a point of order %d, which is not a requested prime" % q)]
            if q in covered:
                out.append((P, "twice", "prime %d is covered twice" % q))
            new.add(q)
        covered |= new
        if len(new) != m:
            out.append((P, "multiplicity", "a curve that covers %d primes %s is output %d times" % (len(new), sorted(new), m)))
        if cur.order and any(cur.order % q for q in new):
            out.append((P, "order", "a covered prime does not divide the order"))
        if cur.q.bit_length() > 38:
            if cur.b in bs:
                out.append((P, "same-curve", "two different entries have the same b: the searches are not independent"))
            bs[cur.b] = 1
            if cur.b == orig.b:
                out.append((P, "same-curve", "an invalid curve equals the original"))
    if ended(r) and r.exit == 0:
        if exact:
            if covered != left or n != len(left):
                out.append((P, "coverage", "%d entries cover %s of the primes %s" % (n, sorted(covered), sorted(left))))
        else:
            k = len(primes)
            if not (n == k and covered == left):
                miss = sorted(left - covered)
                out.append((P, "coverage", "%d entries, primes up to %d needed; not covered: %s" % (n, primes[-1], miss)))
    elif n > len(primes):
        out.append((P, "coverage", "more entries than primes"))
    return out


def keyof_item(s, it):
    if s["field"] == "p":
        return (it[0], it[1] % it[0], it[2] % it[0])
    return (it[0], tuple(it[1:4]), it[4], it[5])


def mk_invalid(rng, threads=None, big=False, none=False):
    f = "p" if rng.random() < .75 else "2"
    bits = rng.randrange(40, 64) if f == "p" else rng.randrange(32, 46)
    if rng.random() < .04:
        # as large as real ones
        bits = work.real(rng, 100, 161 if f == "p" else 191)
    cur = work.fp_curve(rng, bits) if f == "p" else work.f2m_large(rng, bits)
    if f == "2":
        bits = cur[0]
    s = {"field": f, "bits": bits, "method": "invalid"}
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
    k = rng.random()
    if k < .1 and not threads or k < .04:
        s["range"] = str(rng.choice(small[:6]))
    elif k < .2 and (big or not threads):
        # the whole procedure, on a small curve
        bits = rng.randrange(18, 24) if f == "p" else rng.randrange(16, 20)
        cur = work.fp_curve(rng, bits) if f == "p" else work.f2m_curve(rng, bits)
        s["bits"] = bits
    elif k < .26 and bits < 60:
        # more primes than there is room for at first
        s["range"] = "%d-%d" % (rng.choice([0, 1, 2, 3]), rng.choice([32, 73, 80, 100, 130] + ([] if threads else [180, 200])))
    elif k < .3 and none:
        lo, hi = rng.choice([(0, 1), (1, 1), (24, 28), (3, 2), (14, 16), (90, 96), (8, 10)])
        s["range"] = "%d-%d" % (lo, hi)
    else:
        i = rng.randrange(0, 4)
        j = min(len(small) - 1, i + rng.randrange(1, 8))
        s["range"] = "%d-%d" % (max(1, small[i] - rng.randrange(2)), small[j] + rng.randrange(2))
    if rng.random() < .25:
        s["unique"] = 1
    if threads:
        s["threads"] = threads
        s["tstack"] = rng.choice(["8m", "8m", "8192k", "8388608", "8M"])
    rand = rng.random() < .2
    if rand:
        s["random"] = "all"
        inp = None
    else:
        inp = work.lines(rng, *cur)
    c = mk(s, inp, rng)
    if len(range_primes(s, 1)[0]) > 8:
        c["knobs"]["budget"] = max(c["knobs"]["budget"], 200_000_000)
    if not rand:
        c["items"] = cur
    return c


def sc_invalid(rng, tier):
    c = mk_invalid(rng, none=True)
    c = work.benign(rng, c)
    if rng.random() < .2:
        c = timeouts(rng, c)
        c["may_fail"] = bool(c.get("items"))
    c["prop"] = "C05"
    return "invalid_", c


def sc_threads(rng, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5, 8])
    c = mk_invalid(rng, threads=n, none=True)
    c = work.benign(rng, c)
    c["knobs"]["budget"] = max(c["knobs"]["budget"], 60_000_000)
    if rng.random() < .15:
        c = timeouts(rng, c)
        c["may_fail"] = bool(c.get("items"))
    c = with_(c, sched=work.sched(rng))
    if rng.random() < .12:
        k = rng.random()
        lost = range(n) if k < .2 else sorted(rng.sample(range(n), rng.randrange(1, n))) if k < .6 else range(rng.randrange(n), n)
        c["faults"] += ["tfail %d" % i for i in lost]
    if rng.random() < .1:
        # as many threads as there are processors
        c["spec"]["threads"] = "auto"
        c["knobs"]["nproc"] = n
    c["prop"] = "C06"
    return "invalid_", c


# ------------------------------------------------------------------ storage (C08-C10, C21)
ERRNO = {"EIO": 5, "ENOSPC": 28, "EPIPE": 32, "EDQUOT": 122, "EBADF": 9, "EINTR": 4, "EAGAIN": 11, "EFBIG": 27}


@judge
def accepted(R, c):
    """exit 0 only if the whole document was accepted by the system"""
    b = base(R, c)
    if not ended(b) or b.exit != 0:
        return []
    r = R.run(c)
    P = c.get("prop", "C08")
    out = [(P, cls, d) for cls, d in internal(r)]
    want, got = text(b, c), text(r, c)
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    lost = any(t in "wo" for t, *_ in r.ev)
    if r.exit == 0 and got != want:
        out.append((P, "lost", "exit 0, but " + diff(want, got)))
    if not lost and got != want:
        out.append((P, "lost", "no write failed, but " + diff(want, got)))
    if not lost and r.exit != 0:
        out.append((P, "exit", "no write failed, but " + r.summary()))
    if r.exit != 0 and not r.err.strip():
        out.append((P, "silent", "failed without a word on standard error"))
    return out


def multi(rng):
    """a spec that emits several curves quickly"""
    k = rng.random()
    if k < .5:
        s, inp = work.plain(rng, 6, 26)
        s.pop("hex", None)
    elif k < .7:
        s, inp = work.given(rng, 6, 24)
    elif k < .8:
        s, inp = work.twist(rng, 6, 24)
    elif k < .9:
        s, inp = work.ansi(rng, 6, 24)
    else:
        s, inp = work.supersingular(rng, 6, 24)
    return s, inp


def to_file(rng, s, files, prob=.5):
    if rng.random() < prob:
        s["output"] = "out.json"
        if rng.random() < .5:
            s["append"] = 1
        if rng.random() < .6:
            files["out.json"] = rng.choice([b"[]\n", b"old\n", b"x" * 5000, b""])
        return "out.json"
    return "@out"


def sc_write_faults(rng, tier):
    if rng.random() < .15:
        c = mk_invalid(rng, threads=rng.choice([None, 2, 3]))
        s = c["spec"]
        c["items"] = None
        files = {}
        path = to_file(rng, s, files, .5)
        c["files"] = {k: v.hex() for k, v in files.items()}
    else:
        s, inp = multi(rng)
        files = {}
        path = to_file(rng, s, files)
        c = mk(s, inp, rng, files=files)
    f = []
    k = rng.random()
    if k < .5:
        n = rng.randrange(1, 3)
        for _ in range(n):
            e = rng.choice([5, 28, 32, 122, 27, 11])
            part = rng.choice([0, 0, 1 + rng.randrange(60)])
            f.append("io %s w %d %s %d" % (path, rng.choice([0, 1, 2, 3, 4, 6, 8, 12]), rng.choice(["err", "err", "errp"]), e | part << 16))
    elif k < .8:
        f.append("cap %s %d" % (path, len(files.get(path, b"") if s.get("append") else b"") + rng.randrange(0, 900)))
    elif k < .9:
        f.append("io %s c 0 err %d" % (path, rng.choice([5, 28, 122])))
    f += work.short_writes(rng, path)
    c = with_(c, faults=c["faults"] + f)
    c["prop"] = "C08"
    if s.get("threads"):
        # the order of entries depends on the schedule only, which stays the same
        c["sched"] = ""
    return "accepted", c


@judge
def crash_prefix(R, c):
    """what a crash leaves is a prefix of the document, with all the curves finished before"""
    P = c.get("prop", "C09")
    nocrash = dict(c, faults=[f for f in c["faults"] if " crash " not in f],
                   knobs={k: v for k, v in c["knobs"].items() if k != "crash"})
    b = R.run(nocrash)
    if not ended(b):
        return []
    r = R.run(c)
    if r.outcome != "CRASH":
        return []
    out = []
    want, got = text(b, c), text(r, c)
    path = c["spec"].get("output")
    old = bytes.fromhex(c["files"].get(path, "")).decode("latin-1") if path else ""
    n = 0
    if c.get("bounds"):
        # interactive: curve i is out before the first byte of curve i+1 is asked for
        have = sum(bb for t, th, tick, clk, a, bb, d in r.ev if t == "R" and a == 0)
        n = max([i for i, off in enumerate(c["bounds"]) if have > off], default=0)
    if c.get("ticks_of"):
        tick = c["knobs"].get("crash", 0)
        n = max(n, sum(1 for x in c["ticks_of"] if x < tick))
    if path and got == old and n == 0:
        return []
    if not want.startswith(got):
        return [(P, "prefix", diff(want[:len(got)], got))]
    if path and c["spec"].get("append"):
        if not got.startswith(old):
            return [(P, "append", "earlier content of the file was lost")]
        got = got[len(old):]
    es, end = oracle.entries(got)
    if end.startswith("bad"):
        return [(P, "document", end)]
    if len(es) < n:
        out.append((P, "durability", "%d complete curves on the disk, %d were finished before the crash" % (len(es), n)))
    return out


def sc_crash(rng, tier):
    k = rng.random()
    files = {}
    if k < .5:
        # input-driven
        f = rng.choice("pp2")
        bits = rng.randrange(6, 22)
        n = rng.randrange(2, 6)
        s = {"field": f, "bits": bits, "count": n, "points": rng.choice(["prime", "none", "random"])}
        if rng.random() < .3:
            s["method"] = "twist"
        its = [work.fp_curve(rng, bits) if f == "p" else work.f2m_curve(rng, bits) for _ in range(n)]
        inp, bounds = b"", [0]
        for it in its:
            inp += work.lines(rng, *it)
            bounds.append(len(inp))
        path = to_file(rng, s, files)
        c = mk(s, inp, rng, files=files)
        c["faults"] = ["rchunk @in 1 0"]
        c["bounds"] = bounds
        if rng.random() < .5:
            c["faults"].append("io @in r %d crash 0" % rng.randrange(0, len(inp)))
        else:
            c["knobs"]["crash"] = rng.randrange(1, 40000 * n)
    elif k < .6:
        c = mk_invalid(rng, threads=rng.choice([2, 3, 4]))
        c["items"] = None
        path = to_file(rng, c["spec"], files)
        c["files"] = {k: v.hex() for k, v in files.items()}
        c = with_(c, sched=work.sched(rng))
        if rng.random() < .5:
            c["faults"].append("io %s w %d crash %d" % (path, rng.randrange(0, 14), rng.randrange(0, 50)))
        else:
            c["knobs"]["crash"] = rng.randrange(1, 400000)
    else:
        s, inp = multi(rng)
        path = to_file(rng, s, files)
        c = mk(s, inp, rng, files=files)
        if rng.random() < .5:
            c["faults"].append("io %s w %d crash %d" % (path, rng.randrange(0, 10), rng.randrange(0, 50)))
        else:
            c["knobs"]["crash"] = int(10 ** rng.uniform(2, 6))
    c["faults"] += work.short_writes(rng, path)
    c["prop"] = "C09"
    return "crash_prefix", c


@judge
def crash_count(R, c):
    """curves finished by a run of -c i are on the disk of a run of -c n that crashes later"""
    P = "C09"
    s = c["spec"]
    i = c["upto"]
    b = base(R, c, spec=dict(s, count=i))
    if not ended(b) or b.exit != 0:
        return []
    at = b.cnt["ticks"] + c["after"]
    r = R.run(with_(c, knobs={"crash": at}))
    if r.outcome != "CRASH":
        return []
    old = bytes.fromhex(c["files"].get(s["output"], "")).decode("latin-1") if s.get("append") else ""
    if not text(r, c).startswith(old):
        return [(P, "append", "earlier content of the file was lost")]
    es, end = oracle.entries(text(r, c)[len(old):])
    if end.startswith("bad"):
        return [(P, "document", end)]
    want, _ = oracle.entries(text(b, c)[len(old):])
    if es[:i] != want:
        return [(P, "durability", "a run of -c %d was done by tick %d, a run of -c %d that crashed then left %d curves" % (
            i, at, s["count"], len(es)))]
    return []


def sc_crash_count(rng, tier):
    s, inp = work.plain(rng, 6, 26)
    while s.get("koblitz") is not None:
        s, inp = work.plain(rng, 6, 26)
    s["count"] = rng.randrange(2, 9)
    files = {}
    if rng.random() < .6:
        s["output"] = "out.json"
        if rng.random() < .5:
            s["append"] = 1
            files["out.json"] = rng.choice([b"[]\n", b"old\n", b"x" * 5000, b""])
    c = mk(s, inp, rng, files=files)
    c["upto"] = rng.randrange(1, s["count"])
    c["after"] = rng.choice([0, 1, 10, 1000])
    return "crash_count", c


@judge
def outfile(R, c):
    """-o, -a and what happens when the file can not be opened"""
    P = "C10"
    s = c["spec"]
    plainspec = {k: v for k, v in s.items() if k not in ("output", "append")}
    b = base(R, c, spec=plainspec, files={k: v for k, v in c["files"].items() if k != s["output"]})
    if not ended(b):
        return []
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    want = b.out.decode("latin-1")
    path = s["output"]
    old = bytes.fromhex(c["files"].get(path, "")).decode("latin-1")
    opens = [(chr(bb), a) for t, th, tick, clk, a, bb, d in r.ev if t == "O" and d.decode() == path]
    failed = any(l.startswith("noopen") for l in c["faults"]) or path in c["dirs"]
    if failed:
        if r.out.decode("latin-1") != want:
            out.append((P, "fallback", "the document is not on standard output: " + diff(want, r.out.decode("latin-1"))))
        if not r.err.strip():
            out.append((P, "silent", "the file could not be opened and standard error says nothing"))
    else:
        got = (r.file(path) or b"").decode("latin-1")
        exp = (old if s.get("append") else "") + want
        if got != exp:
            out.append((P, "content", diff(exp, got)))
        if r.out:
            out.append((P, "stdout", "the document went to a file, but standard output has %r" % r.out[:60]))
    if r.status != b.status:
        out.append((P, "exit", "%s instead of %s" % (r.summary(), b.summary())))
    return out


def sc_outfile(rng, tier):
    s, inp = multi(rng)
    if rng.random() < .3 and inp:
        inp = inp[:rng.randrange(len(inp))]
    s["output"] = rng.choice(["out.json", "./o", "a/b.json"])
    if rng.random() < .5:
        s["append"] = 1
    files, dirs, f = {}, [], []
    if rng.random() < .6:
        files[s["output"]] = rng.choice([b"[]\n", b"old", b"z" * rng.randrange(1, 9000), b"[\n{}\n]\n"])
    k = rng.random()
    if k < .2:
        f.append("noopen %s %d" % (s["output"], rng.choice([2, 13, 28, 30, 24, 20])))
    elif k < .25:
        dirs.append(s["output"])
        files.pop(s["output"], None)
    if rng.random() < .3:
        s["verbose"] = rng.choice(["std", "log"])
    c = mk(s, inp, rng, files=files, dirs=dirs)
    c["faults"] = f + work.short_writes(rng, s["output"])
    if rng.random() < .5:
        c = work.benign(rng, c)
    return "outfile", c


@judge
def verbose_(R, c):
    """verbose logging and trouble with it or with standard error change nothing"""
    P = "C21"
    s = {k: v for k, v in c["spec"].items() if k != "verbose"}
    b = base(R, c, spec=s, files={k: v for k, v in c["files"].items() if k != "log"})
    if not ended(b):
        return []
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    if text(r, c) != text(b, c):
        out.append((P, "output", diff(text(b, c), text(r, c))))
    if r.status != b.status:
        out.append((P, "exit", "%s instead of %s" % (r.summary(), b.summary())))
    quiet = not any(f.startswith(("io", "cap", "noopen")) for f in c["faults"])
    if quiet and c["spec"].get("verbose") == "log":
        old = bytes.fromhex(c["files"].get("log", ""))
        got = r.file("log")
        if got is None or (old and old[:8] in got and len(old) > 8):
            out.append((P, "log", "the log file was not started anew"))
        if b.err != r.err:
            out.append((P, "stderr", "logging to a file changed standard error"))
    return out


def sc_verbose(rng, tier):
    k = rng.random()
    if k < .2:
        c = mk_invalid(rng, threads=rng.choice([None, None, 2]))
        c["items"] = None
        s = c["spec"]
    elif k < .3:
        s, inp = work.brainpool(rng)
        c = mk(s, inp, rng)
    elif k < .4:
        s, inp = rng.choice([work.family, work.anomalous, work.nums])(rng)
        c = mk(s, inp, rng)
    else:
        s, inp = multi(rng)
        c = mk(s, inp, rng)
    s["verbose"] = rng.choice(["std", "log", "log", None]) or ""
    if rng.random() < .3:
        s["append"] = 1
    if rng.random() < .3 and "output" not in s:
        s["output"] = "out.json"
        if rng.random() < .4:
            c["files"]["out.json"] = rng.choice([b"", b"[]\n", b"previous\n"]).hex()
    if s["verbose"] == "log" and rng.random() < .4:
        c["files"]["log"] = (b"previous content of the log " * 20).hex()
    f = []
    log = "log" if s["verbose"] == "log" else "@err"
    k = rng.random()
    if k < .25:
        f.append("io %s w %d %s %d" % (rng.choice([log, "@err"]), rng.randrange(0, 6), rng.choice(["err", "errp"]), rng.choice([5, 28, 32, 9])))
    elif k < .4:
        f.append("cap %s %d" % (log, rng.randrange(0, 300)))
    elif k < .55 and log == "log":
        f.append("noopen log %d" % rng.choice([2, 13, 30]))
        c["files"].pop("log", None)
    elif k < .7:
        f.append("io %s w %d slow %d" % (log, rng.randrange(4), 10 ** 10))
    if rng.random() < .3 and f:
        f += work.short_writes(rng, log)
    c["faults"] = f
    return "verbose_", c


# ------------------------------------------------------------------ input (C11)
def given_items(rng, n=None):
    f = rng.choice("pp2")
    bits = rng.randrange(5, 22)
    n = n or rng.randrange(1, 6)
    s = {"field": f, "bits": bits, "count": n, "points": rng.choice(["none", "prime"])}
    its = [work.fp_curve(rng, bits) if f == "p" else work.f2m_curve(rng, bits) for _ in range(n)]
    return s, its


@judge
def truncated(R, c):
    """input that ends or fails early: the run ends, fails, and what it wrote is a whole document
    of exactly the curves that were given in full"""
    P = "C11"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", "the run does not end when the input does: " + r.summary())]
    es, end = oracle.entries(text(r, c))
    lo, hi = c["complete"]
    if end not in ("whole", "empty") or (end == "empty" and lo):
        return out + [(P, "document", "the document is %s" % end)]
    got = []
    for o in es:
        try:
            got.append(keyof(oracle.parse(s, o)))
        except oracle.Bad as e:
            return out + [(P, "form", str(e))]
    want = [keyof_item(s, it) for it in c["items"]]
    if not lo <= len(got) <= hi or got != want[:len(got)]:
        out.append((P, "curves", "emitted %s, given in full were %s" % (got, want[:hi])))
    if (r.exit == 0) != (len(got) == s["count"]):
        out.append((P, "exit", "%s after %d of %d curves" % (r.summary(), len(got), s["count"])))
    return out


def sc_truncated(rng, tier):
    s, its = given_items(rng)
    delim = "\n"
    chunks = [work.lines(rng, *it, delim="\n") for it in its]
    c0 = None
    fin = rng.random() < .3
    if fin:
        chunks = [x.replace(b"\n", b",") for x in chunks]
    full = b"".join(chunks)
    k = rng.random()
    f = []
    if k < .6:
        # the stream simply ends
        cut = rng.randrange(len(full) + 1)
        data = full[:cut]
    elif k < .85:
        # reading fails, once or for good, at some byte
        cut = rng.randrange(len(full))
        data = full
        ch = 1
        cut -= cut % ch
        f.append("rchunk @ %d 0" % ch)
        f.append("io @ r %d errp %d" % (cut // ch, rng.choice([5, 5, 116, 9])))
    else:
        cut = rng.randrange(len(full))
        data = full
        f.append("rchunk @ 1 0")
        f.append("io @ r %d eof 0" % cut)
        # a terminal may offer more after end of input
    # a curve is given in full if its last number is; the last delimiter may be missing
    ends, pos = [], 0
    for x in chunks:
        pos += len(x)
        ends.append(pos)
    lo = sum(1 for e in ends if e <= cut)
    hi = sum(1 for e in ends if e - 1 <= cut)
    if k < .6 and cut not in ends and cut + 1 not in ends and data:
        # a cut inside the last number of a curve leaves another number
        last = [e for e in ends if e > cut]
        seg = full[cut:last[0]] if last else b""
        if seg.count(b"," if fin else b"\n") <= 1:
            # inside the last number: its value differs, do not judge that curve
            return sc_truncated(rng, tier)
    if k >= .6:
        seg = [e for e in ends if e > cut]
        if seg and full[cut:seg[0]].count(b"," if fin else b"\n") <= 1 and cut + 1 not in ends and cut not in ends:
            return sc_truncated(rng, tier)
    if inside_number_changes(full, cut, fin) and not (cut in ends or cut + 1 in ends):
        return sc_truncated(rng, tier)
    files = {}
    if fin:
        s["input"] = "in.txt"
        files["in.txt"] = data
        c = mk(s, None, rng, files=files)
    else:
        c = mk(s, data, rng)
    p = "in.txt" if fin else "@in"
    c["faults"] = [x.replace("@ ", p + " ", 1) for x in f]
    if rng.random() < .4 and k < .6:
        c["faults"].append("rchunk %s %d %d" % (p, rng.choice([1, 3, 7]), rng.randrange(99)))
    if rng.random() < .4 and not fin:
        s["output"] = "out.json"
    if rng.random() < .2:
        s["timeout"] = "1h"
    c["items"] = its
    c["complete"] = [lo, hi]
    return "truncated", c


def inside_number_changes(full, cut, fin):
    """a cut inside a number that is not the last of its curve is harmless: the rest is missing anyway"""
    return False


@judge
def file_like_stdin(R, c):
    """the same numbers from a file give the same document"""
    P = "C11"
    s = dict(c["spec"])
    path = s.pop("input")
    b = base(R, c, spec=s, files={k: v for k, v in c["files"].items() if k != path},
             stdin=bytes.fromhex(c["files"][path]).replace(b",", b"\n").hex())
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if ended(b) and (r.status != b.status or text(r, c) != text(b, c)):
        out.append((P, "file", "%s instead of %s; %s" % (r.summary(), b.summary(), diff(text(b, c), text(r, c)))))
    return out


def sc_file_like_stdin(rng, tier):
    g = rng.choice([work.given, work.twist, work.ansi, work.supersingular, work.brainpool, work.family])
    while True:
        s, inp = g(rng)
        if inp:
            break
    inp = inp.replace(b"\n", b",")
    if rng.random() < .5:
        inp = inp[:-1]
    s["input"] = rng.choice(["in.txt", "dir/in"])
    c = mk(s, None, rng, files={s["input"]: inp})
    c = work.benign(rng, c, files=(s["input"],))
    return "file_like_stdin", c


@judge
def no_input(R, c):
    """an input file that can not be opened is an error, and nothing is made up instead"""
    P = "C11"
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    es, end = oracle.entries(text(r, c))
    if r.exit == 0:
        out.append((P, "exit", "exit 0 although the input file could not be opened"))
    if es:
        out.append((P, "curves", "%d curves without an input" % len(es)))
    if end.startswith("bad"):
        out.append((P, "document", end))
    if not r.err.strip():
        out.append((P, "silent", "no message about the input file"))
    return out


def sc_no_input(rng, tier):
    s, its = given_items(rng)
    s["input"] = "in.txt"
    c = mk(s, work.lines(rng, *its[0]), rng)
    if rng.random() < .8:
        c["files"] = {"in.txt": work.lines(rng, *its[0], delim=",").hex()}
        c["faults"] = ["noopen in.txt %d" % rng.choice([2, 13, 24, 40])]
    return "no_input", c


@judge
def slow_input(R, c):
    c["prop"] = "C11"
    return same(R, c)


def sc_slow_input(rng, tier):
    g = rng.choice([work.given, work.twist, work.ansi, work.supersingular, work.brainpool, work.family])
    while True:
        s, inp = g(rng)
        if inp:
            break
    c = mk(s, inp, rng)
    c["faults"] = ["rchunk @in %d %d" % (rng.choice([1, 1, 2, 4, 9]), rng.randrange(1 << 20))]
    for _ in range(rng.randrange(0, 5)):
        c["faults"].append("io @in r %d slow %d" % (rng.randrange(0, len(inp)), rng.choice([T9, 10 ** 12, 10 ** 15])))
    c["prop"] = "C11"
    return "same", c


# ------------------------------------------------------------------ randomness (C12)
def candidates(r):
    """what each thread but the first tried: hashes of the curves it counted the points of"""
    out = {}
    for t, th, tick, clk, a, b, d in r.ev:
        if t == "V" and th and any(d):
            out.setdefault(th, set()).add(d)
    return out


@judge
def entropy(R, c):
    """different entropy, different curves; trouble with the entropy source ends well"""
    P = "C12"
    k = c["kind"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r) or r.exit != 0:
        return out + [(P, "hang" if not ended(r) else "exit", r.summary())]
    if c["spec"].get("method") == "invalid":
        out += [(P, x[1], x[2]) for x in invalid_verdict(r, c, P)]
        mine = candidates(r)
        ths = sorted(mine)
        for i, a in enumerate(ths):
            for b in ths[:i]:
                if mine[a] & mine[b]:
                    out.append((P, "thread", "threads %d and %d both try the same curve, of about 2^%d" % (b, a, c["spec"]["bits"])))
                    return out
        if c.get("other"):
            q = R.run(with_(c, **c["other"]))
            if not ended(q) or q.exit != 0:
                return out + [(P, "exit", q.summary())]
            theirs = candidates(q)
            for a in mine:
                for b in theirs:
                    if mine[a] & theirs[b]:
                        out.append((P, "thread", "thread %d tries a curve that thread %d of a run with other entropy tries" % (a, b)))
                        return out
        return out
    other = with_(c, **c["other"])
    q = R.run(other)
    if not ended(q) or q.exit != 0:
        return out + [(P, "exit", q.summary())]
    eq = text(r, c) == text(q, c)
    if k == "differ" and eq:
        out.append((P, "same", "two runs with different %s wrote the same curves" % c["what"]))
    if k == "same" and not eq:
        out.append((P, "differ", "the output depends on %s" % c["what"]))
    return out


def sc_entropy(rng, tier):
    s = {"field": rng.choice("p2"), "random": "all", "bits": rng.randrange(48, 60), "points": "none"}
    if rng.random() < .3:
        s = {"field": "p", "random": "all", "bits": rng.randrange(44, 60), "method": rng.choice(["supersingular", "ansi"]), "points": "none"}
    c = mk(s, None, rng)
    U = "/dev/urandom"
    k = rng.random()
    if k < .3:
        if rng.random() < .7:
            c["other"] = {"knobs": {"entflip": rng.randrange(64)}}
        else:
            c["other"] = {"knobs": {"entropy": c["knobs"]["entropy"] ^ (1 << rng.randrange(40))}}
        c["kind"], c["what"] = "differ", "entropy"
    elif k < .5:
        c["other"] = {"faults": ["rchunk %s %d %d" % (U, rng.choice([1, 2, 3, 5]), rng.randrange(100))]}
        c["kind"], c["what"] = "same", "how the entropy is delivered"
    elif k < .6:
        c["other"] = {"knobs": {"realtime": rng.randrange(1 << 31)}, "faults": ["stall 5 %d" % rng.randrange(1, T9)]}
        c["kind"], c["what"] = "same", "the time although entropy is available"
    else:
        # the source fails: the clock has to do
        how = rng.choice([["noopen %s %d" % (U, rng.choice([2, 13, 24]))],
                          ["io %s r 0 errp 5" % U], ["io %s r 0 eof 0" % U, "io %s r 1 eof 0" % U, "io %s r 2 eof 0" % U, "io %s r 3 eof 0" % U],
                          ["rchunk %s 1 0" % U, "io %s r %d errp 5" % (U, rng.randrange(1, 6))],
                          ["noopen %s 2" % U]])
        t1, t2 = rng.sample(range(1000, 10 ** 9), 2)
        c["faults"] = how + ["stall 5 %d" % t1]
        c["other"] = {"faults": how + ["stall 5 %d" % t2]}
        c["kind"], c["what"] = "differ", "the time, without entropy,"
    return "entropy", c


@judge
def spread(R, c):
    """every bit of what is drawn at random takes both values; no bit of a random seed is fixed"""
    P = "C12"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r) or r.exit != 0:
        return out + [(P, "hang" if not ended(r) else "exit", r.summary())]
    es, end = oracle.entries(text(r, c))
    if end != "whole" or len(es) != s["count"]:
        return out + [(P, "document", "%s with %d curves" % (end, len(es)))]
    cur = [oracle.parse(s, o) for o in es]

    def both(what, xs, lo, hi):
        x1, x0 = 0, -1
        for x in xs:
            x1 |= x
            x0 &= x
        stuck = [i for i in range(lo, hi) if not (x1 >> i & 1) or x0 >> i & 1]
        if stuck:
            out.append((P, "stuck-bits", "bits %s of the %s are the same in %d curves" % (stuck[:20], what, len(xs))))
    n = s["bits"]
    m = s.get("method")
    if m in ("brainpool", "brainpool-rfc", "ansi"):
        seeds = [int(x.seed, 16) for x in cur]
        if m == "ansi":
            both("random seed", seeds, 0, 159)
        else:
            both("random seed", seeds, 0, 160)
            # if all searches started at a multiple of 256, starting there again would lead to the same ends
            ms = [m_brainpool(n, x & ~0xff, m == "brainpool-rfc") for x in seeds]
            if all(x is not None and x[0] == y for x, y in zip(ms, seeds)):
                out.append((P, "stuck-bits", "all %d random seeds began with a low byte of zero" % len(seeds)))
    if s["field"] == "p" and m in (None, "supersingular", "ansi"):
        both("field", [x.p for x in cur], 1, n - 1)
    if m is None:
        both("a", [x.a for x in cur], 0, n - 1)
        both("b", [x.b for x in cur], 0, n - 1)
    if m == "ansi":
        both("a" if s["field"] == "p" else "b", [x.a if s["field"] == "p" else x.b for x in cur], 0, n - 1)
    return out


def sc_spread(rng, tier):
    k = rng.random()
    s = {"field": rng.choice("p2"), "random": "all", "points": "none", "count": rng.randrange(64, 80)}
    if k < .4:
        s["bits"] = rng.randrange(12, 24)
    elif k < .6:
        s["method"] = "ansi"
        s["bits"] = rng.randrange(12, 24)
    elif k < .7:
        s.update(field="p", method="supersingular", bits=rng.randrange(12, 24))
    else:
        s.update(field="p", method=rng.choice(["brainpool", "brainpool-rfc"]), bits=rng.randrange(8, 12), count=64)
    return "spread", mk(s, None, rng, budget=200_000_000)


def sc_entropy_threads(rng, tier):
    """every thread searches with randomness of its own"""
    c = mk_invalid(rng, threads=rng.choice([2, 3, 4]))
    while not c["spec"].get("range") or "-" not in c["spec"]["range"] or c["spec"]["bits"] < 44:
        c = mk_invalid(rng, threads=rng.choice([2, 3, 4, 8]))
    if rng.random() < .5:
        c["other"] = {"knobs": {"entropy": c["knobs"]["entropy"] ^ (1 << rng.randrange(40))}}
    c["knobs"]["budget"] = max(c["knobs"]["budget"], 60_000_000)
    c["sched"] = work.sched(rng)
    c["kind"] = "threads"
    return "entropy", c


# ------------------------------------------------------------------ memory (C13, C22)
def urandoms(r):
    src = {a for t, th, tick, clk, a, b, d in r.ev if t == "O" and d == b"/dev/urandom"}
    return sum(b for t, th, tick, clk, a, b, d in r.ev if t == "R" and a in src)


@judge
def memory(R, c):
    """a failed allocation ends the run in order or not at all: no crash, no wrong output"""
    P = "C13"
    b = base(R, c)
    if not ended(b) or b.exit != 0:
        return []
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    want, got = text(b, c), text(r, c)
    if urandoms(r) != urandoms(b):
        # a stream to the entropy source could not be set up: the clock seeds the search then
        bad = invalid_verdict(r, c, P) if c["spec"].get("method") == "invalid" else judged(r, c)
        return out + [(P, x[0] + "-" + x[1], x[2]) for x in bad if r.exit == 0 or x[1] != "exit"]
    if r.exit == 0 and got != want:
        out.append((P, "wrong", "exit 0 after a failed allocation, but " + diff(want, got)))
    elif not want.startswith(got):
        es, end = oracle.entries(got)
        wes, _ = oracle.entries(want)
        if end.startswith("bad"):
            out.append((P, "document", end))
        elif es != wes[:len(es)]:
            out.append((P, "wrong", diff(want, got)))
    if r.exit != 0 and not r.err.strip():
        out.append((P, "silent", "failed without a word on standard error"))
    return out


def sc_memory(rng, tier):
    k = rng.random()
    if k < .5:
        s, inp = multi(rng)
        c = mk(s, inp, rng)
    elif k < .75:
        s, inp = rng.choice([work.anomalous, work.family, work.brainpool, work.brainpool, work.ansi, work.nums, work.order])(rng)
        c = mk(s, inp, rng)
    else:
        c = mk_invalid(rng, threads=rng.choice([None, 2]))
        c["items"] = None
    if rng.random() < .1:
        c["spec"]["verbose"] = rng.choice(["std", "log"])
    k = rng.random()
    if k < .45:
        # memory that ecgen itself asks for
        c["faults"] = ["efail %d" % int(10 ** rng.uniform(0, 3)) for _ in range(rng.randrange(1, 3))]
    elif k < .75:
        c["faults"] = ["mfail %d" % int(10 ** rng.uniform(0, 3.3)) for _ in range(rng.randrange(1, 3))]
    else:
        c["faults"] = ["mfrom %d %d" % (int(10 ** rng.uniform(0, 3)), rng.choice([2048, 4096, 16384]))]
        # (when every small allocation fails, PARI can not even report that)
    return "memory", c


@judge
def bounded(R, c):
    """a long search needs no more memory than a short one"""
    P = "C22"
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET" or ended(r) and r.exit != 0 and c.get("few"):
        return out
    if ended(r) and r.exit != 0:
        out.append((P, "exhausted", "%s: %r" % (r.summary(), r.err[-120:])))
    if b"stack overflows" in r.err:
        out.append((P, "stack", "the PARI stack overflows in a long run"))
    if c.get("short") and ended(r) and r.exit == 0:
        q = R.run(with_(c, spec=dict(c["spec"], **c["short"])))
        if ended(q) and q.exit == 0:
            more = r.cnt["peak_blocks"] - q.cnt["peak_blocks"]
            if more > 160:
                out.append((P, "blocks", "%d blocks are in use at once, %d in a shorter run" % (r.cnt["peak_blocks"], q.cnt["peak_blocks"])))
            more = r.cnt["peak_heap"] - q.cnt["peak_heap"]
            if c["allow"] and more > c["allow"]:
                out.append((P, "heap", "the heap reaches %d bytes, %d in a shorter run" % (r.cnt["peak_heap"], q.cnt["peak_heap"])))
    return out


# ------------------------------------------------------------------ timeouts (C14)
@judge
def timeout_(R, c):
    """a computation that hangs is given up after the timeout, and the run goes on"""
    P = "C14"
    T = c["T"] * T9
    r = R.run(c)
    # other threads that stall may keep the expired one from running
    waits = sum(int(f.split()[2]) for f in c["faults"] if f.startswith("stall")) if c["spec"].get("threads") else 0
    out = [(P, cls, d) for cls, d in internal(r)]
    for t, th, tick, clk, a, b, d in r.ev:
        if t == "h" and b > T + T9 // 1000 + waits:
            out.append((P, "late", "a hung computation was given up after %.3f s, the timeout is %d s" % (b / T9, c["T"])))
            break
    if any(f.startswith("hangc") for f in c["faults"]):
        seen = set()
        for t, th, tick, clk, a, b, d in r.ev:
            if t == "H" and any(d):
                if d in seen:
                    out.append((P, "again", "the candidate that was given up is tried again"))
                    break
                seen.add(d)
    if r.outcome != "END":
        hung = any(t == "H" for t, *_ in r.ev)
        if r.outcome in ("BUDGET", "STUCK", "ABANDON") and (hung or c.get("must_end")):
            out.append((P, "hang", "%s with a timeout of %d s" % (r.summary(), c["T"])))
        return out
    if r.exit != 0 and not c.get("may_fail"):
        out.append((P, "exit", "%s: %r" % (r.summary(), r.err[-160:])))
    if c["spec"].get("method") == "invalid":
        out += invalid_verdict(r, c, P)
    else:
        out += [(P, x[0] + "-" + x[1], x[2]) for x in judged(r, c)]
    live = r.cnt["timers_live"]
    made = sum(1 for t, *_ in r.ev if t == "N")
    if live > int(c["spec"].get("threads", 1)) + 1:
        out.append((P, "timer-leak", "%d of %d timers are never deleted" % (live, made)))
    return out


def sc_timeout(rng, tier):
    T = rng.choice([1, 2, 5, 60, 3600, 86400])
    arg = {1: "1", 2: "2s", 5: "5", 60: rng.choice(["60", "1m"]), 3600: rng.choice(["1h", "60m"]), 86400: "1d"}[T]
    k = rng.random()
    if k < .25:
        c = mk_invalid(rng, threads=rng.choice([None, None, 2, 3, 4]))
        if c["spec"].get("threads"):
            c["sched"] = work.sched(rng)
            c["knobs"]["budget"] = max(c["knobs"]["budget"], 60_000_000)
        c["may_fail"] = bool(c.get("items"))
    else:
        while True:
            s, inp = rng.choice([work.plain, work.plain, work.plain, work.ansi, work.brainpool])(rng)
            if s.get("random") == "all" or s.get("method") in ("brainpool", "brainpool-rfc") and s.get("seed"):
                break
        c = mk(s, inp, rng)
    c["spec"]["timeout"] = arg
    c["T"] = T
    one = "hang"
    s = c["spec"]
    if s.get("random") == "all" and s["bits"] >= 24 and s.get("koblitz") is None and s.get("method") in (None, "ansi") and not s.get("seed"):
        # some candidates never end, however often they are tried
        one = rng.choice(["hang", "hangc", "hangc"])
    for _ in range(rng.randrange(1, 5)):
        c["faults"].append("%s %d" % (one, rng.choice([0, 0, 1, 2, 3, 4, 6, 9, rng.randrange(60)])))
    if rng.random() < .3:
        c["faults"].append("stall %d %d" % (rng.randrange(1, 100000), rng.choice([T - 1, T, T + 1, 3 * T]) * T9 + rng.randrange(-1000, 1000)))
    if c["knobs"].get("reuse") is None and rng.random() < .5:
        c["knobs"]["reuse"] = rng.randrange(3)
        c["knobs"]["memfill"] = rng.randrange(256)
    return "timeout_", c


@judge
def patient(R, c):
    """with nothing slower than the timeout, the timeout changes nothing"""
    s = {k: v for k, v in c["spec"].items() if k != "timeout"}
    b = base(R, c, spec=s)
    if not ended(b):
        return []
    r = R.run(c)
    P = "C14"
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out + [(P, "hang", r.summary())]
    if r.status != b.status:
        out.append((P, "exit", "%s, without a timeout %s" % (r.summary(), b.summary())))
    if text(r, c) != text(b, c):
        out.append((P, "premature", "a timeout that nothing exceeds changes the output: " + diff(text(b, c), text(r, c))))
    made = sum(1 for t, *_ in r.ev if t == "N")
    if r.cnt["timers_live"] > 2:
        out.append((P, "timer-leak", "%d of %d timers are never deleted" % (r.cnt["timers_live"], made)))
    return out


def sc_patient(rng, tier):
    T = rng.choice([1, 10, 60, 3600, 86400])
    arg = {1: "1s", 10: "10", 60: "1m", 3600: "1h", 86400: "1d"}[T]
    s, inp = work.any_method(rng)
    while s.get("method") == "order" or s.get("koblitz") is not None and s["field"] == "2":
        s, inp = work.any_method(rng)
    s["timeout"] = arg
    c = mk(s, inp, rng)
    left = T * T9 - T9 // 10
    for _ in range(rng.randrange(0, 4)):
        d = rng.randrange(1, left)
        left -= d
        if left < 2:
            break
        c["faults"].append("stall %d %d" % (int(10 ** rng.uniform(2, 5)), d))
    if inp:
        for _ in range(rng.randrange(0, 4)):
            c["faults"].append("io @in r %d slow %d" % (rng.randrange(0, 4), rng.choice([T, 3 * T, 10 ** 6]) * T9))
        if rng.random() < .5:
            c["faults"].append("rchunk @in %d %d" % (rng.choice([1, 4]), rng.randrange(99)))
    if rng.random() < .4:
        c["faults"].append("io @out w %d slow %d" % (rng.randrange(4), 5 * T * T9))
    return "patient", c


# ------------------------------------------------------------------ reference models (C15, C16, C23, C24, C17-C19)
@functools.lru_cache(400)
def m_brainpool(bits, seed, rfc):
    return models.brainpool(bits, seed, rfc)


@functools.lru_cache(100)
def m_nums(bits):
    return models.nums(bits)


def vs_model(r, c, P, m, seeded=True):
    """compare a run with (seed, p, a, b, N, G)"""
    s = c["spec"]
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET":
        return out + [(P, "hang", "the model ends, the run does not")]
    if not ended(r) or r.exit != 0:
        return out + [(P, "exit", "%s: %r" % (r.summary(), r.err[-160:]))]
    es, end = oracle.entries(text(r, c))
    if end != "whole" or len(es) != 1:
        return out + [(P, "document", "%s with %d curves" % (end, len(es)))]
    v, cur = oracle.curve(s, es[0])
    out += [(P, x[0] + "-" + x[1], x[2]) for x in v]
    if cur is None or any(x[0] in ("C07", "C01") for x in v):
        return out
    S, p, a, b, N, G = m
    if seeded and int((cur.seed or "0x0").replace("0x", "") or "0", 16) != S:
        out.append((P, "seed", "seed %s, the procedure ends with %#x" % (cur.seed, S)))
    if (cur.p, cur.a, cur.b) != (p, a, b):
        out.append((P, "curve", "p, a, b = %#x %#x %#x, the procedure gives %#x %#x %#x" % (cur.p, cur.a, cur.b, p, a, b)))
    elif cur.order != N:
        out.append((P, "order", "order %#x, not %#x" % (cur.order, N)))
    elif cur.gens:
        g = cur.gens[0].P
        if g != G and g != cur.E.neg(G):
            out.append((P, "generator", "generator %s, the procedure gives %s" % (ec.hexpt(g), ec.hexpt(G))))
    return out


@judge
def brainpool_(R, c):
    s = c["spec"]
    m = c.get("model") or m_brainpool(s["bits"], c["seed"], s["method"] == "brainpool-rfc")
    if m is None:
        return []
    return vs_model(R.run(c), c, "C15", m)


@functools.lru_cache(None)
def golden_brainpool():
    """real sizes, for which the model takes minutes: worked out beforehand by models.brainpool"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bp.json")) as f:
        return json.load(f)


def sc_brainpool(rng, tier):
    if rng.random() < .04:
        g = rng.choice(golden_brainpool())
        s = {"field": "p", "bits": g["bits"], "method": "brainpool-rfc" if g["rfc"] else "brainpool", "points": rng.choice(["none", "random"])}
        inp = None
        if rng.random() < .6:
            s["seed"] = ("0x" if rng.random() < .4 else "") + g["seed"]
        else:
            inp = (g["seed"] + "\n").encode()
        c = work.benign(rng, mk(s, inp, rng, budget=2_000_000_000, watchdog=30000))
        m = list(g["model"])
        m[5] = tuple(m[5])
        c.update(seed=int(g["seed"], 16), model=m)
        return "brainpool_", c
    hi = 27 if tier == "quick" else 31
    rfc = rng.random() < .5
    s = {"field": "p", "bits": rng.randrange(8, hi), "method": "brainpool-rfc" if rfc else "brainpool",
         "points": rng.choice(["none", "prime", "random"])}
    seed = rng.randrange(1 << 160)
    k = rng.random()
    if k < .15:
        seed = (1 << 160) - rng.randrange(1, 40)
    elif k < .25:
        seed = rng.randrange(1 << rng.randrange(8, 150))
    inp = None
    if rng.random() < .6:
        s["seed"] = ("0x" if rng.random() < .4 else "") + "%040x" % seed
    else:
        inp = b"%040x\n" % seed
    c = work.benign(rng, mk(s, inp, rng))
    k = rng.random()
    if k < .35 and s.get("seed"):
        c = timeouts(rng, c)
    c["seed"] = seed
    return "brainpool_", c


@judge
def nums_(R, c):
    m = m_nums(c["spec"]["bits"])
    if m is None:
        return []
    return vs_model(R.run(c), c, "C23", (0,) + m, seeded=False)


def sc_nums(rng, tier):
    s, inp = work.nums(rng, 25 if tier == "quick" else 29)
    c = work.benign(rng, mk(s, inp, rng))
    return "nums_", c


@judge
def ansi_(R, c):
    """the coefficients are what the seed determines"""
    P = "C16"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if not ended(r):
        return out
    es, end = oracle.entries(text(r, c))
    if c.get("must") and (r.exit != 0 or len(es) != s.get("count", 1)):
        out.append((P, "exit", "%s with %d curves" % (r.summary(), len(es))))
    n = 0
    for o in es:
        v, cur = oracle.curve(s, o)
        out += [(P, x[0] + "-" + x[1], x[2]) for x in v]
        if cur is None or any(x[0] in ("C07", "C01") for x in v):
            return out
        if cur.seed is None:
            return out + [(P, "seed", "no seed")]
        sd = cur.seed.replace("0x", "")
        given = [s["seed"].replace("0x", "")] if s.get("seed") else c.get("seeds")
        if given:
            # seeds are bit strings: leading zeros are part of them, the output is whole bytes
            sd = next((x for x in given if int(x, 16) == int(sd, 16)), None)
            if sd is None:
                return out + [(P, "seed", "seed %s is output, which was not given" % cur.seed)]
        elif len(sd) * 4 < 160:
            out.append((P, "seed", "random seed %s has less than 160 bits" % cur.seed))
        bits = cur.p.bit_length() if s["field"] == "p" else cur.m
        x = models.ansi_bits(sd, bits, s["field"] == "p")
        if s["field"] == "p":
            if (x * cur.b * cur.b - cur.a ** 3) % cur.p:
                out.append((P, "b", "r b^2 is not a^3 for the r of the seed"))
        elif x != cur.b:
            out.append((P, "b", "b is %#x, the seed gives %#x" % (cur.b, x)))
    return out


def sc_ansi(rng, tier):
    f = rng.choice("p2")
    big = rng.random() < .04
    if big:
        bits = rng.choice([159, 160, 161, 161, 162, 168, 176]) if f == "p" else rng.choice([151, 160, 161, 162, 163])
    else:
        bits = rng.randrange(6, 40) if rng.random() < .85 else work.lsize(rng, 40, 100)
    s = {"field": f, "bits": bits, "method": "ansi", "random": "all", "points": "none" if big else rng.choice(["none", "prime", "random"])}
    inp, seeds = None, None
    k = rng.random()
    nib = 40 + rng.choice([0, 0, 0, 1, 2, 3, 5, 8, 17, 40])
    if k < .45:
        v = rng.randrange(1 << (4 * nib - 4), 1 << 4 * nib)
        if rng.random() < .3:
            v = (1 << 4 * nib) - rng.randrange(1, 3)
        elif rng.random() < .2:
            # leading zeros are part of a seed
            v >>= rng.randrange(4, 4 * nib - 1)
        s["seed"] = ("0x" if rng.random() < .4 else "") + "%0*x" % (nib, v)
    elif k < .7:
        s["random"] = "field"
        n = 60
        seeds = ["%0*x" % (nib, rng.randrange(1 << (4 * nib - 4), 1 << 4 * nib)) for _ in range(n)]
        inp = "".join(x + "\n" for x in seeds).encode()
    if not big and not s.get("seed"):
        if f == "p" and rng.random() < .3 and bits < 50:
            s["prime"] = 1
        elif rng.random() < .3:
            s["unique"] = 1
        if rng.random() < .4 and bits < 70:
            s["count"] = rng.randrange(2, 4)
    c = mk(s, inp, rng, budget=400_000_000 if big else BUDGET)
    c = work.benign(rng, c)
    if big:
        c["knobs"]["watchdog"] = 20000
    if not big and rng.random() < .3 and not inp:
        c = timeouts(rng, c)
    if seeds:
        c["seeds"] = seeds
    c["must"] = not inp and not s.get("prime")
    return "ansi_", c


@judge
def twist_(R, c):
    """the twist of each given curve, in order"""
    P = "C24"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET":
        return out + [(P, "hang", r.summary())]
    if not ended(r) or r.exit != 0:
        return out + [(P, "exit", "%s: %r" % (r.summary(), r.err[-160:]))]
    es, end = oracle.entries(text(r, c))
    if end != "whole" or len(es) != len(c["items"]):
        return out + [(P, "document", "%s with %d curves of %d" % (end, len(es), len(c["items"])))]
    for o, it in zip(es, c["items"]):
        v, cur = oracle.curve(s, o)
        out += [(P, x[0] + "-" + x[1], x[2]) for x in v]
        if cur is None or any(x[0] in ("C07", "C01") for x in v):
            return out
        if s["field"] == "p":
            E = ec.FpCurve(*it)
            N = ec.group_order(E)
            if cur.p != it[0]:
                return out + [(P, "field", "the twist is over another field")]
            a, b, a2, b2 = E.a, E.b, cur.a, cur.b
            p = cur.p
            if a and b:
                # a' = u^2 a, b' = u^3 b with u a nonsquare: u = (b'/b)/(a'/a)
                if not a2 or not b2:
                    return out + [(P, "twist", "not a twist: j differs")]
                u = b2 * pow(b, -1, p) * a * pow(a2, -1, p) % p
                ok = ec.jacobi(u, p) == -1 and a2 == u * u * a % p and b2 == u ** 3 * b % p
            else:
                ok = cur.E.j() == E.j()
            if not ok:
                out.append((P, "twist", "%#x %#x over %#x is not the quadratic twist of %#x %#x" % (a2, b2, p, a, b)))
            if cur.order + N != 2 * p + 2:
                out.append((P, "order", "orders %#x and %#x of twists do not sum to 2p+2" % (cur.order, N)))
        else:
            if (cur.m, tuple(cur.e)) != (it[0], tuple(it[1:4])):
                return out + [(P, "field", "the twist is over another field")]
            F = cur.E.F
            if cur.b != it[5] or F.trace(cur.a ^ it[4]) != 1:
                out.append((P, "twist", "a=%#x b=%#x is not the quadratic twist of a=%#x b=%#x" % (cur.a, cur.b, it[4], it[5])))
    return out


def sc_twist(rng, tier):
    f = rng.choice("pp2")
    big = rng.random() < .1
    bits = work.real(rng, 100, 192) if big else rng.randrange(5, 34) if f == "p" else rng.randrange(3, 40)
    s = {"field": f, "bits": bits, "method": "twist", "points": rng.choice(["none", "random"]) if big else work.points(rng)}
    n = 1 if big else rng.choice([1, 1, 2, 3, 5])
    if n > 1:
        s["count"] = n
    its = []
    for _ in range(n):
        it = work.fp_curve(rng, bits) if f == "p" else work.f2m_large(rng, bits)
        if f == "p" and rng.random() < .15:
            it = (it[0], 0, it[2] or 1) if rng.random() < .5 else (it[0], it[1] or 1, 0)
        its.append(it)
    if f == "2":
        s["bits"] = max(it[0] for it in its)
    inp = work.lines(rng, *[x for it in its for x in it])
    c = mk(s, inp, rng)
    c["items"] = its
    c = work.benign(rng, c)
    return "twist_", c


@judge
def family_(R, c):
    P = "C19"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET":
        return out + [(P, "hang", r.summary())]
    es, end = oracle.entries(text(r, c))
    if c.get("z") is not None:
        if not ended(r) or r.exit != 0 or len(es) != 1:
            return out + [(P, "exit", "%s with %d curves for the parameter %d: %r" % (r.summary(), len(es), c["z"], r.err[-120:]))]
    for o in es:
        v, cur = oracle.curve(s, o)
        out += [(P, x[0] + "-" + x[1], x[2]) for x in v]
        if cur is None or any(x[0] in ("C07", "C01") for x in v):
            return out
        out += family_judge(s, c, cur)
        if c.get("z") is not None and cur.p != models.family_params(s["family"], c["z"])[0]:
            out.append((P, "field", "p is not that of the parameter %d" % c["z"]))
    return out


def sc_family(rng, tier):
    if rng.random() < .3:
        s, inp = work.big_family(rng, ("BN", "BLS12", "BLS24", "KSS16", "KSS16", "KSS18", "KSS36") + (("KSS40",) if rng.random() < .1 else ()))
    else:
        s, inp = work.family(rng, ("BN", "BN", "BLS12", "BLS12", "KSS18", "BLS24"))
    z = number(inp.split()[0].decode())
    if rng.random() < .5:
        # parameters that define nothing are passed over
        bad = []
        while len(bad) < rng.randrange(1, 4):
            w = rng.randrange(2, 4000) * rng.choice([1, -1])
            if not models.family_ok(s["family"], w) and w != z:
                bad.append(w)
        inp = work.lines(rng, *bad) + inp
        s["bits"] = max(s["bits"], 128)
    c = work.benign(rng, mk(s, inp, rng, budget=200_000_000 if s["bits"] > 200 else BUDGET))
    c["z"] = z
    return "family_", c


@judge
def cm_(R, c):
    P = "C17"
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "END" and r.exit != 0 and not c["faults"]:
        out.append((P, "exit", "%s: %r" % (r.summary(), r.err[-120:])))
    out += [(P, x[1] if x[0] == P else x[0] + "-" + x[1], x[2]) for x in judged(r, c)]
    return out


def sc_cm(rng, tier):
    s, inp = work.order(rng, 5, 24)
    if rng.random() < .3:
        # a prime order
        while True:
            n = rng.randrange(11, 2000)
            if ec.is_prime(n):
                break
        s["order"] = str(n)
        s["bits"] = n.bit_length() + 2
    elif rng.random() < .1:
        b = rng.randrange(24, 129)
        fs = [work.prime(rng, b)] if rng.random() < .5 else [work.prime(rng, b // 2), work.prime(rng, b - b // 2)]
        n = math.prod(fs)
        s["order"] = ",".join(map(str, fs)) if rng.random() < .5 and len(set(fs)) == len(fs) else str(n)
        s["bits"] = n.bit_length() + 1
        s["points"] = rng.choice(["none", "random"])
        c = work.benign(rng, mk(s, inp, rng, budget=60_000_000, watchdog=15000))
        return "cm_", c
    c = work.benign(rng, mk(s, inp, rng, budget=5_000_000))
    return "cm_", c


@judge
def special_(R, c):
    P = "C18"
    s = c["spec"]
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if r.outcome == "BUDGET":
        return out + [(P, "hang", r.summary())]
    if ended(r) and r.exit != 0:
        out.append((P, "exit", "%s: %r" % (r.summary(), r.err[-120:])))
    out += [(P, x[1] if x[0] == P else x[0] + "-" + x[1], x[2]) for x in judged(r, c)]
    if s["method"] == "supersingular" and c.get("stdin") and not s.get("random"):
        es, _ = oracle.entries(text(r, c))
        got = [int(o["field"]["p"], 16) for o in es]
        if got != inputs(c)[:len(got)]:
            out.append((P, "field", "curves over %s for the primes %s" % (got, inputs(c))))
    return out


def sc_special(rng, tier):
    if rng.random() < .1:
        s, inp = work.large(rng)
        while s.get("method") not in ("anomalous", "supersingular"):
            s, inp = work.large(rng)
    else:
        s, inp = (work.anomalous if rng.random() < .5 else work.supersingular)(rng)
    if s["method"] == "supersingular" and rng.random() < .4:
        s["metadata"] = 1
    c = work.benign(rng, mk(s, inp, rng))
    return "special_", c


# ------------------------------------------------------------------ non-interference (C25)
def sc_same(rng, tier):
    k = rng.random()
    if k < .12:
        c = mk_invalid(rng)
        c["items"] = None
    else:
        s, inp = work.any_method(rng)
        c = mk(s, inp, rng)
        if s.get("method") == "order":
            c["knobs"]["budget"] = 6_000_000
    c = work.benign(rng, c)
    c["prop"] = "C25"
    return "same", c


@judge
def prefix_count(R, c):
    """-c m gives the first m curves of -c n"""
    P = "C25"
    s = c["spec"]
    a = R.run(c)
    b = R.run(with_(c, spec=dict(s, count=c["more"])))
    if not ended(a) or not ended(b) or a.exit or b.exit:
        return []
    x, _ = oracle.entries(text(a, c))
    y, _ = oracle.entries(text(b, c))
    if x != y[:len(x)]:
        return [(P, "count", "-c %d does not give the first curves of -c %d" % (s.get("count", 1), c["more"]))]
    return []


def sc_prefix_count(rng, tier):
    s, inp = work.plain(rng, 6, 26)
    while s.get("koblitz") is not None:
        s, inp = work.plain(rng, 6, 26)
    s["count"] = rng.randrange(1, 4)
    c = mk(s, inp, rng)
    c["more"] = s["count"] + rng.randrange(1, 4)
    return "prefix_count", c


def sc_bounded_search(rng, tier):
    """a search for invalid curves of a rare order: thousands of curves are tried"""
    f = rng.choice("ppp2")
    bits = rng.choice([16, 20, 20, 24, 24, 32, 40]) if f == "p" else rng.choice([20, 21, 22])
    cur = work.fp_curve(rng, bits) if f == "p" else work.f2m_curve(rng, bits)
    q = rng.choice([499, 997, 1999, 2999, 4001]) if bits > 16 and f == "p" else 499
    while not ec.is_prime(q):
        q += 2
    s = {"field": f, "bits": bits, "method": "invalid", "range": rng.choice(["%d" % q, "%d-%d" % (q, q + rng.randrange(1, 12))]), "memory": "2m"}
    if rng.random() < .4:
        s["threads"] = rng.choice([2, 2, 3, 4])
        s["tstack"] = "2m"
    if rng.random() < .15:
        s["timeout"] = "1h"
    c = mk(s, work.lines(rng, *cur), rng, budget=200_000_000)
    if s.get("threads") and rng.random() < .5:
        c["sched"] = "1 %d %d %d %d" % (rng.randrange(1 << 40), 400000, rng.choice([0, 100]), 0)
    c["short"] = {"range": "2"}
    # each thread that runs has tables of its own
    c["allow"] = None if s.get("threads") else 16384
    return "bounded", c


def sc_bounded_given(rng, tier):
    """a long input, all of it used, or most of it passed over"""
    f = rng.choice("pp2")
    bits = rng.randrange(10, 20)
    n = 400 if tier == "quick" else 3000
    s = {"field": f, "bits": bits, "memory": "2m", "count": n, "points": rng.choice(["none", "prime", "random"])}
    k = rng.random()
    short = {"count": 20}
    if k < .4:
        s["method"] = "twist"
    elif k < .7 and f == "p":
        # most are not prime
        s["prime"] = 1
        s["count"] = max(1, n // 40)
        short = {"count": 1}
    its = []
    while len(its) < n:
        its.append(work.fp_curve(rng, bits) if f == "p" else work.f2m_curve(rng, bits))
    c = mk(s, "".join("%d\n" % x for it in its for x in it).encode(), rng, budget=200_000_000)
    c["short"] = short
    c["allow"] = 8192
    if s.get("prime"):
        c["few"] = 1
    return "bounded", c


@judge
def bounded_long(R, c):
    """a search that goes on and on needs no more memory than its beginning"""
    P = "C22"
    r = R.run(c)
    out = [(P, cls, d) for cls, d in internal(r)]
    if b"stack overflows" in r.err:
        out.append((P, "stack", "the PARI stack overflows in a long run"))
    q = R.run(with_(c, knobs={"budget": c["early"]}))
    if r.outcome == "BUDGET" == q.outcome:
        more = r.cnt["peak_blocks"] - q.cnt["peak_blocks"]
        if more > 160:
            out.append((P, "blocks", "%d blocks are in use at once, %d in the first part of the run" % (r.cnt["peak_blocks"], q.cnt["peak_blocks"])))
        more = r.cnt["peak_heap"] - q.cnt["peak_heap"]
        if more > 4 << 20:
            out.append((P, "heap", "the heap reaches %d bytes, %d in the first part of the run" % (r.cnt["peak_heap"], q.cnt["peak_heap"])))
    return out


def sc_bounded_giveup(rng, tier):
    """curves of real sizes, of which none is ever counted in time"""
    f = rng.choice("pp2")
    s = {"field": f, "random": "all", "bits": rng.randrange(161, 420) if f == "p" else rng.choice([163, 233, 283, 409]), "points": "none",
         "memory": "16m", "timeout": "1"}
    m = rng.choice(["brainpool", "brainpool", "ansi", "ansi", "ansi", None])
    if m and not (m == "brainpool" and f == "2"):
        s["method"] = m
    elif f == "2":
        s["method"] = "ansi"
    if rng.random() < .3:
        s["prime" if f == "p" else "unique"] = 1
    if s.get("method") == "brainpool":
        s.pop("prime", None)
    long = 60_000_000 if tier == "quick" else 300_000_000
    c = mk(s, None, rng, budget=long)
    c["faults"] = ["hangto 2000"]
    c["early"] = 4_000_000
    return "bounded_long", c


def sc_bounded(rng, tier):
    k = rng.random()
    if k > .85:
        return sc_bounded_giveup(rng, tier)
    if k < .35:
        return sc_bounded_search(rng, tier)
    if k < .5:
        return sc_bounded_given(rng, tier)
    s = {"field": "p", "random": "all", "bits": rng.randrange(14, 26), "points": rng.choice(["none", "prime", "random"]), "memory": "4m"}
    big = 300 if tier == "quick" else 2000
    k = rng.random()
    short = None
    if k < .2:
        s["count"] = big
        short = {"count": 20}
    elif k < .3:
        s["hex"] = "%03x" % rng.randrange(4096)
        short = {"hex": None}
    elif k < .36:
        s = {"field": "p", "random": "all", "method": "family", "family": "BN", "bits": rng.randrange(10, 16), "count": big // 6, "memory": "8m"}
        short = {"count": 3}
    elif k < .42:
        s = {"field": "p", "random": "all", "method": "brainpool", "bits": rng.randrange(24, 40), "count": rng.choice([2, 3]), "memory": "8m"}
        if rng.random() < .3:
            s["hex"] = "%02x" % rng.randrange(256)
        short = {"count": 1, "hex": None}
    elif k < .46:
        s = {"field": "p", "random": "all", "method": "ansi", "bits": rng.randrange(14, 30), "prime": 1, "count": big // 30, "memory": "8m"}
        short = {"count": 1}
    elif k < .5:
        s = {"field": "p", "random": "all", "bits": rng.randrange(12, 20), "method": "ansi", "hex": "%03x" % rng.randrange(4096), "memory": "8m"}
        short = {"hex": None}
    elif k < .6:
        s["prime"] = 1
        s["count"] = big // 10
        short = {"count": 5}
    elif k < .7:
        s = {"field": "2", "random": "all", "bits": rng.randrange(8, 16), "count": big, "memory": "4m", "points": "none"}
        short = {"count": 20}
    elif k < .8:
        s = {"field": "p", "random": "all", "bits": rng.randrange(10, 20), "method": rng.choice(["ansi", "supersingular"]), "count": big // 2, "memory": "4m"}
        short = {"count": 20}
        if s["method"] == "supersingular":
            # now and then a larger class polynomial is needed
            s["memory"], s["count"] = "16m", 5 * big
            short = None
    elif k < .9:
        s["cofactor"] = rng.choice([2, 4, 8])
        s["count"] = big // 10
        s["unique"] = 1
        short = {"count": 5}
    else:
        s = {"field": "p", "random": "all", "bits": rng.randrange(24, 36), "method": "anomalous", "count": big // 2, "memory": "4m"}
        short = {"count": 20}
    c = mk(s, None, rng, budget=200_000_000)
    c["short"] = short
    c["allow"] = 16384 if s.get("hex") or s.get("method") == "brainpool" else 8192
    return "bounded", c


def mix(*pairs):
    """(weight, scenario)..."""
    ws = [w for w, _ in pairs]
    fs = [f for _, f in pairs]

    def f(rng, tier):
        return rng.choices(fs, ws)[0](rng, tier)
    return f


@judge
def internal_(R, c):
    """whatever happens to a run, no error inside the program"""
    r = R.run(c)
    return [("C26", cls, d) for cls, d in internal(r)]


@judge
def document_(R, c):
    """a whole document if the run succeeds, and that or nothing if it does not"""
    r = R.run(c)
    if not ended(r):
        return []
    t, s = text(r, c), c["spec"]
    if s.get("append"):
        # what is there already is not part of it
        old = bytes.fromhex(c["files"].get(s.get("output"), "")).decode("latin-1")
        t = t[len(old):] if t.startswith(old) else t
    es, end = oracle.entries(t)
    if r.exit == 0 and end != "whole":
        return [("C07", "incomplete", "exit 0 with a document that is " + end)]
    if end not in ("whole", "empty"):
        return [("C07", "malformed", "%s with a document that is %s" % (r.summary(), end))]
    out = []
    for i, o in enumerate(es):
        try:
            oracle.parse(c["spec"], o)
        except oracle.Bad as e:
            out.append(("C07", "form", "curve %d: %s" % (i, e)))
            break
    return out


def judged_by(name, *scenarios):
    """the cases of other properties, for a judge of this one"""
    def f(rng, tier):
        _, c = rng.choice(scenarios)(rng, tier)
        return name, c
    return f


GEN_W = None
TWIST_W = {"plain": 40, "given": 16, "twist": 8, "ansi": 12, "brainpool": 5, "nums": 2, "family": 4,
           "anomalous": 4, "supersingular": 6, "order": 6}

# property: (scenario, cases of the quick tier, cases of the thorough tier)
PROPS = {
    "C01": (generation(None), 3000, 60000),
    "C02": (mix((16, generation(None)), (2, sc_unique), (1, sc_square)), 3000, 60000),
    "C03": (mix((17, generation(None, tune=tune_points)), (2, sc_small), (1, sc_square)), 3000, 60000),
    "C04": (mix((3, generation({"plain": 50, "ansi": 10, "twist": 3, "large": 8, "supersingular": 4, "anomalous": 2}, tune=tune_constraint)), (2, sc_filter), (.1, sc_square)), 5000, 60000),
    "C05": (sc_invalid, 2500, 20000),
    "C06": (sc_threads, 1200, 20000),
    "C07": (mix((3, generation(None)), (2, judged_by("document_", sc_truncated, sc_truncated, sc_no_input, sc_filter, sc_invalid, sc_threads,
                                                      sc_timeout, sc_brainpool, sc_slow_input, sc_verbose))), 3000, 60000),
    "C08": (sc_write_faults, 5000, 60000),
    "C09": (mix((2, sc_crash), (1, sc_crash_count)), 6000, 60000),
    "C10": (sc_outfile, 12000, 60000),
    "C11": (mix((4, sc_truncated), (1, sc_file_like_stdin), (1, sc_no_input), (2, sc_slow_input),
                (2, lambda r, t: sc_filter(r, t, "C11"))), 12000, 60000),
    "C12": (mix((12, sc_entropy), (4, sc_entropy_threads), (1, sc_spread)), 2000, 40000),
    "C13": (sc_memory, 4000, 60000),
    "C14": (mix((2, sc_timeout), (1, sc_patient)), 5000, 40000),
    "C15": (sc_brainpool, 2000, 30000),
    "C16": (sc_ansi, 5000, 40000),
    "C17": (sc_cm, 3000, 20000),
    "C18": (sc_special, 5000, 40000),
    "C19": (sc_family, 3500, 40000),
    "C20": (generation(None, tune=tune_meta), 3500, 50000),
    "C21": (sc_verbose, 4000, 40000),
    "C22": (sc_bounded, 650, 8000),
    "C23": (sc_nums, 8000, 15000),
    "C24": (sc_twist, 3000, 40000),
    "C25": (mix((4, sc_same), (1, sc_prefix_count)), 2500, 50000),
    "C26": (mix((2, generation(None)), (3, judged_by("internal_", sc_threads, sc_threads, sc_threads, sc_memory, sc_memory, sc_write_faults, sc_timeout, sc_timeout,
                                                      sc_truncated, sc_no_input, sc_filter, sc_invalid, sc_entropy, sc_outfile,
                                                      sc_verbose, sc_brainpool, sc_crash, sc_slow_input))), 4000, 60000),
}


def scenario(prop, seed, i, tier):
    rng = random.Random("%s:%s:%d" % (seed, prop, i))
    return PROPS[prop][0](rng, tier)
