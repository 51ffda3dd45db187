"""Seeded workloads: command lines, inputs and benign disturbances."""
import functools, random
import ec, dst, models
from ec import FpCurve, F2m, F2mCurve, is_prime


def prime(rng, bits):
    while True:
        p = rng.randrange(1 << (bits - 1), 1 << bits)
        if is_prime(p) and (p > 3 or bits < 3):
            return p


def fp_curve(rng, bits):
    """(p, a, b) of a curve"""
    while True:
        p = prime(rng, bits)
        a, b = rng.randrange(p), rng.randrange(p)
        if (4 * a ** 3 + 27 * b * b) % p:
            return p, a, b


@functools.lru_cache(None)
def irreducibles(m):
    """some exponent triples of irreducible polynomials of degree m"""
    out = []
    for e in range(1, m):
        if F2m(m, [e]).irreducible():
            out.append((e, 0, 0))
    if len(out) < 3 and m > 3:
        n = 0
        for e1 in range(3, m):
            for e2 in range(2, e1):
                for e3 in range(1, e2):
                    n += 1
                    if n > 4000:
                        return out
                    if F2m(m, [e1, e2, e3]).irreducible():
                        out.append((e1, e2, e3))
                        if len(out) > 6:
                            return out
    return out


def f2m_curve(rng, m):
    """(m, e1, e2, e3, a, b) of a curve"""
    e = rng.choice(irreducibles(m))
    return (m,) + e + (rng.randrange(1 << m), rng.randrange(1, 1 << m))


def num(rng, n):
    r = rng.random()
    if n < 0:
        return "-%d" % -n
    pre, d = ("", "%d" % n) if r < .5 else ("0x", ("%x" if r < .8 else "%X") % n)
    if rng.random() < .04:
        # as long as anyone likes
        d = "0" * rng.choice([1, 7, 30, 130, 150, 200, 260, 520, 1100, 5000]) + d
    return pre + d


def lines(rng, *nums, delim="\n"):
    return "".join(num(rng, n) + delim for n in nums).encode()


def points(rng):
    return rng.choice(["prime", "all", "nonprime", "random", "none", "%drandom" % rng.randrange(1, 9)])


def plain(rng, lo=5, hi=36):
    """everything random, sometimes with constraints"""
    f = rng.choice("ppp2")
    bits = rng.randrange(lo, hi)
    s = {"field": f, "random": "all", "bits": bits}
    r = rng.random()
    if f == "p":
        if r < .2:
            s["prime"] = 1
        elif r < .4:
            s["cofactor"] = rng.choice([2, 3, 4, 5, 6, 8])
            s["bits"] = max(bits, 10)
        elif r < .5:
            s["smooth"] = rng.randrange(max(4, bits // 2), bits + 1)
        elif r < .58:
            s["koblitz"] = rng.randrange(2)
            s["bits"] = max(bits, 6)
    else:
        if r < .2:
            s["cofactor"] = rng.choice([2, 4])
            s["bits"] = max(bits, 8)
        elif r < .3:
            s["smooth"] = rng.randrange(max(4, bits // 2), bits + 1)
        elif r < .45:
            s["koblitz"] = rng.randrange(2)
            s["bits"] = max(bits, 6)
    if rng.random() < .3 and s.get("koblitz") is None:
        s["unique"] = 1
    if rng.random() < .6:
        s["points"] = points(rng)
    if rng.random() < .4:
        s["count"] = rng.randrange(1, 5)
        if s.get("koblitz") is not None and f == "2":
            s["count"] = 1
    if rng.random() < .12 and s.get("koblitz") is None:
        s["hex"] = "%x" % rng.randrange(256)
        s["bits"] = max(s["bits"], 9)
    if rng.random() < .3 and s["bits"] > 5:
        s["metadata"] = 1
    return s, None


def given(rng, lo=5, hi=36):
    """curves read from the input, or in part"""
    n = rng.randrange(1, 5)
    f = rng.choice("ppp2")
    bits = rng.randrange(lo, hi)
    s = {"field": f, "bits": bits, "count": n}
    part = rng.choice([None, None, "field", "a", "b", "equation", "field,a", "field,b"])
    if part:
        s["random"] = part
    has = (part or "").replace("equation", "a,b").split(",")
    out = []
    for _ in range(n * 3):
        if f == "p":
            p, a, b = fp_curve(rng, bits)
            it = ([] if "field" in has else [p])
        else:
            m, e1, e2, e3, a, b = f2m_curve(rng, bits)
            it = ([] if "field" in has else [m, e1, e2, e3])
        if "field" in has:
            a, b = rng.randrange(1, 8), rng.randrange(1, 8)
        if "a" not in has:
            it.append(a)
        if "b" not in has:
            it.append(b)
        out += it
    if f == "p" and rng.random() < .3:
        s["unique"] = 1
    s["points"] = points(rng)
    if rng.random() < .3 and bits > 5:
        s["metadata"] = 1
    return s, lines(rng, *out)


def twist(rng, lo=5, hi=32, f=None):
    f = f or rng.choice("pp2")
    bits = rng.randrange(lo, hi)
    s = {"field": f, "bits": bits, "method": "twist", "points": points(rng)}
    n = rng.choice([1, 1, 2, 3])
    if n > 1:
        s["count"] = n
    out = []
    for _ in range(n):
        out += list(fp_curve(rng, bits) if f == "p" else f2m_curve(rng, bits))
    if rng.random() < .3:
        s["metadata"] = 1
        s["bits"] = bits
    return s, lines(rng, *out)


def ansi(rng, lo=6, hi=36, f=None):
    f = f or rng.choice("pp2")
    bits = rng.randrange(lo, hi)
    s = {"field": f, "bits": bits, "method": "ansi", "random": "all", "points": points(rng)}
    nib = 40 + rng.choice([0, 0, 0, 1, 2, 3, 7, 8])
    inp = None
    how = rng.choice(["arg", "rand", "in", "field"])
    if how == "arg":
        s["seed"] = ("0x" if rng.random() < .5 else "") + "%0*x" % (nib, rng.randrange(1, 1 << 4 * nib))
    elif how == "in":
        s["random"] = "field"
        inp = b"".join(b"%0*x\n" % (40, rng.randrange(1 << 159, 1 << 160)) for _ in range(40))
    elif how == "field":
        s["seed"] = "%0*x" % (40, rng.randrange(1 << 160))
        s["random"] = "seed"
        inp = b"".join(lines(rng, *([prime(rng, bits)] if f == "p" else f2m_curve(rng, bits)[:4])) for _ in range(40))
    if f == "p" and rng.random() < .3 and not s.get("seed"):
        s["prime"] = 1
    elif rng.random() < .3 and not s.get("seed"):
        s["unique"] = 1
    if rng.random() < .3:
        s["metadata"] = 1
        s["bits"] = bits
    if not s.get("seed") and rng.random() < .3:
        s["count"] = rng.randrange(2, 4)
    return s, inp


def brainpool(rng, lo=8, hi=24, rfc=None):
    rfc = rng.random() < .5 if rfc is None else rfc
    s = {"field": "p", "bits": rng.randrange(lo, hi), "method": "brainpool-rfc" if rfc else "brainpool", "points": points(rng)}
    inp = None
    how = rng.choice(["arg", "arg", "rand", "in"])
    if how == "arg":
        s["seed"] = "%040x" % rng.randrange(1 << 160)
    elif how == "rand":
        s["random"] = "all"
    else:
        inp = b"".join(b"%040x\n" % rng.randrange(1 << 160) for _ in range(6))
    if rng.random() < .2:
        s["metadata"] = 1
    return s, inp


NUMS_BITS = [5, 6] + list(range(8, 27))


def nums(rng, hi=25):
    s = {"field": "p", "bits": rng.choice([b for b in NUMS_BITS if b < hi]), "method": "nums", "points": points(rng)}
    if rng.random() < .3:
        s["metadata"] = 1
    return s, None


@functools.lru_cache(None)
@functools.lru_cache(None)
def square_curves(q, p):
    """curves over F_p whose group is the square of the one of order q"""
    out = []
    for a in range(p):
        for b in range(p):
            E = ec.FpCurve(p, a, b)
            if E.singular():
                continue
            sq = [0] * p
            for y in range(p):
                sq[y * y % p] += 1
            if 1 + sum(sq[(x * x * x + a * x + b) % p] for x in range(p)) == q * q and not ec.is_cyclic(E, q * q):
                out.append((p, a, b))
    return out


def square(rng):
    """a given curve of which no point generates more than a root of the group"""
    q, p = rng.choice([(5, 31), (7, 43)])
    s = {"field": "p", "bits": p.bit_length(), "cofactor": q, "points": points(rng)}
    return s, list(rng.choice(square_curves(q, p)))


def family_zs(name, lim=3000):
    """parameters that define a curve of the family"""
    out = []
    for z in range(1, lim):
        for w in (z, -z):
            if models.family_ok(name, w) and models.family_params(name, w)[0].bit_length() < 90:
                out.append(w)
    return out


FAMS = ["BN", "BLS12", "BLS24", "KSS16", "KSS18", "KSS36", "KSS40"]


def family(rng, names=("BN", "BN", "BLS12")):
    name = rng.choice(names)
    zs = family_zs(name)
    if not zs:
        name = "BN"
        zs = family_zs(name)
    z = rng.choice(zs)
    s = {"field": "p", "bits": models.family_params(name, z)[0].bit_length(), "method": "family", "family": name,
         "points": points(rng)}
    return s, lines(rng, z)


def anomalous(rng, lo=9, hi=44):
    s = {"field": "p", "bits": rng.randrange(lo, hi), "method": "anomalous", "random": "all", "points": points(rng)}
    if rng.random() < .4:
        s["count"] = rng.randrange(1, 4)
    return s, None


def supersingular(rng, lo=5, hi=36):
    s = {"field": "p", "bits": rng.randrange(lo, hi), "method": "supersingular", "random": "all", "points": points(rng)}
    inp = None
    if rng.random() < .4:
        s["count"] = rng.randrange(1, 4)
    if rng.random() < .4:
        del s["random"]
        inp = lines(rng, *[prime(rng, s["bits"]) for _ in range(s.get("count", 1))])
    return s, inp


def cm_order(rng, lo=6, hi=28):
    """an order of which there are curves, as a product of small primes"""
    while True:
        bits = rng.randrange(lo, hi)
        n, fs = 1, []
        while n.bit_length() < bits:
            q = rng.choice([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31])
            if q in fs:
                continue
            fs.append(q)
            n *= q
            if len(fs) > 10:
                break
        if n.bit_length() >= 5 and len(fs) > 1:
            return n, sorted(fs)


def order(rng, lo=6, hi=24):
    n, fs = cm_order(rng, lo, hi)
    if rng.random() < .35:
        # factors that repeat, and some that are not prime
        top = max(lo + 2, hi - 6)
        n, fs = 1, []
        while n.bit_length() < 5 or len(fs) < 2 or n.bit_length() < top and rng.random() < .6:
            q = rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 21, 25, 37, 53, 89, 101, 2 * 101])
            if (n * q).bit_length() > hi:
                break
            fs.append(q)
            n *= q
        if rng.random() < .3:
            fs = [rng.choice(["%d", "0x%x"]) % f for f in fs]
    s = {"field": "p", "bits": n.bit_length() + 2, "method": "order",
         "order": ",".join(map(str, fs)) if rng.random() < .6 else str(n) if rng.random() < .8 else hex(n), "points": points(rng)}
    return s, None


def invalid(rng, lo=40, hi=72, f=None, threads=None, nmax=8):
    f = f or ("p" if rng.random() < .75 else "2")
    if f == "2":
        lo, hi = 30, 50
    bits = rng.randrange(lo, hi)
    cur = fp_curve(rng, bits) if f == "p" else f2m_curve(rng, bits)
    s = {"field": f, "bits": bits, "method": "invalid"}
    r = rng.random()
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31]
    i = rng.randrange(0, 4)
    j = min(len(small) - 1, i + rng.randrange(1, nmax))
    s["range"] = "%d-%d" % (max(1, small[i] - rng.randrange(2)), small[j] + rng.randrange(2))
    if threads:
        s["threads"] = threads
    return s, lines(rng, *cur)


def lsize(rng, lo, hi):
    """a size beyond what fits a machine word, often next to a limit"""
    xs = [x for x in (31, 32, 33, 48, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 193, 224, 255, 256, 257, 320) if lo <= x <= hi]
    return rng.choice(xs) if xs and rng.random() < .6 else rng.randrange(lo, hi + 1)


def real(rng, usual, p):
    """sizes of curves in use, now and then"""
    return lsize(rng, 101, p) if rng.random() < .2 else lsize(rng, 40, usual)


TRI = [90, 94, 95, 97, 98, 100, 102, 103, 105, 106, 108, 111, 113, 119, 121, 124, 126, 127, 129, 137, 145, 151, 159, 161, 167, 191, 193]


@functools.lru_cache(None)
def trinomials(m):
    out = []
    for e in range(1, m):
        if F2m(m, [e]).irreducible():
            out.append((e, 0, 0))
            if len(out) == 2:
                break
    return out


def f2m_large(rng, m):
    if m > 89:
        m = rng.choice([x for x in TRI if abs(x - m) < 20] or [191])
        return (m,) + rng.choice(trinomials(m)) + (rng.randrange(1 << m), rng.randrange(1, 1 << m))
    return f2m_curve(rng, m)


BIG_Z = {"BN": [-4647714815446351873], "BLS12": [-15132376222941642752, 15132376222941642752 - (1 << 63)], "KSS40": [-17077, 22534]}


@functools.lru_cache(None)
def big_zs(name):
    """parameters of larger curves that are cheap to make"""
    out = [z for z in BIG_Z.get(name, []) if models.family_ok(name, z)]
    top = {"BN": 1 << 30, "BLS12": 1 << 20, "BLS24": 4000, "KSS16": 3000, "KSS18": 3000, "KSS36": 1200, "KSS40": 0}[name]
    r = random.Random(name)
    n = 0
    while len(out) < 12 and top and n < 6000:
        n += 1
        z = r.randrange(2, top) * r.choice([1, -1])
        if models.family_ok(name, z) and z not in out:
            out.append(z)
    return out


def big_family(rng, names=("BN", "BLS12", "BLS24", "KSS16", "KSS16", "KSS18", "KSS36")):
    while True:
        name = rng.choice(names)
        zs = big_zs(name)
        if zs:
            break
    z = rng.choice(zs)
    p = models.family_params(name, z)[0]
    s = {"field": "p", "bits": max(p.bit_length(), 64), "method": "family", "family": name, "points": rng.choice(["none", "random", "3random"])}
    return s, lines(rng, z)


def large(rng):
    """sizes beyond a machine word, as real curves have"""
    pts = rng.choice(["none", "random", "2random", "5random"])
    k = rng.random()
    inp = None
    if k < .24:
        s = {"field": "p", "random": "all", "bits": real(rng, 100, 208)}
        if rng.random() < .15:
            s["prime"] = 1
            s["bits"] = min(s["bits"], 80)
        elif rng.random() < .2:
            s["unique"] = 1
        elif rng.random() < .2:
            s["count"] = 2
        elif rng.random() < .2:
            s["hex"] = "%02x" % rng.randrange(256)
    elif k < .4:
        s = {"field": "2", "random": "all", "bits": real(rng, 100, 283)}
        if rng.random() < .3:
            s["unique"] = 1
    elif k < .48:
        s = {"field": "2", "random": "all", "koblitz": 0, "bits": rng.choice([109, 113, 131, 233, 283])}
        if rng.random() < .3:
            s["koblitz"], s["bits"] = 1, rng.choice([101, 107, 109, 113, 163])
    elif k < .56:
        bits = real(rng, 100, 208)
        f = rng.choice("pp2")
        cur = fp_curve(rng, bits) if f == "p" else f2m_large(rng, bits)
        s = {"field": f, "bits": cur[0].bit_length() if f == "p" else cur[0]}
        if rng.random() < .5:
            s["method"] = "twist"
        inp = lines(rng, *cur)
    elif k < .66:
        f = rng.choice("pp2")
        s = {"field": f, "random": "all", "method": "ansi", "bits": real(rng, 100, 208 if f == "p" else 330)}
        if rng.random() < .5:
            s["seed"] = "%0*x" % (rng.choice([40, 41, 48, 64]), rng.randrange(1 << 160))
    elif k < .76:
        s = {"field": "p", "random": "all", "method": "supersingular", "bits": real(rng, 100, 257)}
        if rng.random() < .4:
            del s["random"]
            inp = lines(rng, prime(rng, s["bits"]))
    elif k < .86:
        s = {"field": "p", "random": "all", "method": "anomalous", "bits": lsize(rng, 44, 256)}
    else:
        return big_family(rng)
    s["points"] = pts
    if rng.random() < .3 and s["bits"] < 100:
        s["metadata"] = 1
    return s, inp


METHODS = {"large": large, "plain": plain, "given": given, "twist": twist, "ansi": ansi, "brainpool": brainpool, "nums": nums,
           "family": family, "anomalous": anomalous, "supersingular": supersingular, "order": order}


def any_method(rng, weights=None):
    w = weights or {"large": 14, "plain": 40, "given": 16, "twist": 8, "ansi": 12, "brainpool": 5, "nums": 2, "family": 4,
                    "anomalous": 4, "supersingular": 6, "order": 6}
    k = rng.choices(list(w), list(w.values()))[0]
    return METHODS[k](rng)


# ------------------------------------------------------------------ disturbances that must not matter
def benign(rng, c, files=("@in",)):
    """knobs and faults that change when and where things happen, not what"""
    k, f = {}, []
    if rng.random() < .15 and not c["spec"].get("memory"):
        c = dst.with_(c, spec=dict(c["spec"], memory=rng.choice(["256m", "1g", "300000k", "500000000"])))
    if rng.random() < .5:
        k["memfill"] = rng.randrange(1, 256)
    if rng.random() < .4:
        k["place"] = rng.randrange(1, 1 << 30)
    if rng.random() < .4:
        k["pid"] = rng.randrange(2, 1 << 22)
    if rng.random() < .5:
        k["reuse"] = rng.randrange(3)
    if rng.random() < .3:
        k["nproc"] = rng.choice([1, 2, 3, 8])
    if rng.random() < .3:
        k["tickns"] = rng.choice([1, 10, 1000])
    if rng.random() < .3:
        k["realtime"] = rng.randrange(1 << 31)
    for p in files:
        if rng.random() < .5:
            f.append("rchunk %s %d %d" % (p, rng.choice([1, 2, 5, 16]), rng.randrange(1 << 20)))
        if rng.random() < .3:
            f.append("io %s r %d slow %d" % (p, rng.randrange(4), rng.choice([10 ** 6, 10 ** 9, 10 ** 12])))
    if rng.random() < .3:
        f.append("io @out w %d slow %d" % (rng.randrange(4), rng.choice([10 ** 6, 10 ** 9, 10 ** 11])))
    if rng.random() < .4:
        f += short_writes(rng)
    if rng.random() < .3:
        for _ in range(rng.randrange(1, 4)):
            f.append("stall %d %d" % (rng.randrange(1, 200000), rng.choice([10 ** 6, 10 ** 9, 10 ** 12])))
    return dst.with_(c, knobs=k, faults=c["faults"] + f)


def short_writes(rng, path="@out", n=4):
    return ["io %s w %d short %d" % (path, rng.randrange(12), rng.randrange(1, 40)) for _ in range(rng.randrange(1, n))]


def sched(rng, ticks=300000):
    """a schedule policy: random preemption or PCT"""
    if rng.random() < .6:
        return "1 %d %d %d %d" % (rng.randrange(1 << 40), rng.choice([500, 5000, 50000, 400000]),
                                  rng.choice([0, 100, 300, 600]), rng.choice([0, 0, 30, 200]))
    return "2 %d %d %d %d" % (rng.randrange(1 << 40), ticks, rng.randrange(1, 6), rng.choice([0, 0, 50]))
