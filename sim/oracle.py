"""What a document written by ecgen has to satisfy, independently of ecgen and PARI.

curve(spec, obj, role) gives a list of (property, class, detail)."""
import functools, json, math, random, re
import ec
from ec import FpCurve, F2m, F2mCurve, TooHard, factor, is_prime

HEX = re.compile(r"^(0x[0-9a-f]+|0+)$")
INT = re.compile(r"^-?[0-9]+$")
SEED = re.compile(r"^-?0x[0-9a-fA-F]*$")


class Bad(Exception):
    pass


def hx(v, what):
    if not isinstance(v, str) or not HEX.match(v):
        raise Bad("%s is %r, not a hexadecimal number" % (what, v))
    return int(v, 16)


class Curve:
    """a parsed curve object"""
    pass


def parse(spec, o):
    c = Curve()
    if not isinstance(o, dict):
        raise Bad("entry is not an object")
    extra = set(o) - {"field", "seed", "a", "b", "order", "subgroups", "meta"}
    if extra:
        raise Bad("unexpected key %s" % sorted(extra))
    for k in ("field", "a", "b", "order"):
        if k not in o:
            raise Bad("no %s" % k)
    f = o["field"]
    if not isinstance(f, dict):
        raise Bad("field is not an object")
    if spec["field"] == "p":
        if set(f) != {"p"}:
            raise Bad("field has keys %s" % sorted(f))
        c.p = hx(f["p"], "p")
        c.q = c.p
        c.fkey = ("p", c.p)
    else:
        if set(f) != {"m", "e1", "e2", "e3"}:
            raise Bad("field has keys %s" % sorted(f))
        c.m = hx(f["m"], "m")
        c.e = [hx(f[k], k) for k in ("e1", "e2", "e3")]
        c.q = 1 << c.m if c.m < 4000 else 0
        c.fkey = ("2", c.m, tuple(c.e))
    c.seed = o.get("seed")
    if c.seed is not None and not (isinstance(c.seed, str) and SEED.match(c.seed)):
        raise Bad("seed is %r" % c.seed)
    c.a, c.b, c.order = hx(o["a"], "a"), hx(o["b"], "b"), hx(o["order"], "order")
    c.gens = []
    subs = o.get("subgroups", [])
    if not isinstance(subs, list):
        raise Bad("subgroups is not an array")
    for s in subs:
        if not isinstance(s, dict) or not {"x", "y", "order"} <= set(s) <= {"x", "y", "order", "cofactor", "points"}:
            raise Bad("malformed subgroup")
        g = Curve()
        g.P = (hx(s["x"], "x"), hx(s["y"], "y"))
        g.order = hx(s["order"], "generator order")
        g.cof = hx(s["cofactor"], "cofactor") if "cofactor" in s else None
        g.points = []
        for p in s.get("points", []):
            if not isinstance(p, dict) or set(p) != {"x", "y", "order"}:
                raise Bad("malformed point")
            g.points.append(((hx(p["x"], "x"), hx(p["y"], "y")), hx(p["order"], "point order")))
        c.gens.append(g)
    c.meta = None
    if "meta" in o:
        m = o["meta"]
        if not isinstance(m, dict):
            raise Bad("meta is not an object")
        for k, v in m.items():
            if not isinstance(v, str) or not INT.match(v):
                raise Bad("meta.%s is %r" % (k, v))
        c.meta = {k: int(v) for k, v in m.items()}
    c.raw = o
    return c


@functools.lru_cache(20000)
def _field2(m, e):
    F = F2m(m, [x for x in e if x])
    return F if F.irreducible() else None


def model(spec, c):
    """the curve, or a string saying what is wrong with it"""
    if spec["field"] == "p":
        if not is_prime(c.p):
            return "field %#x is not prime" % c.p
        if c.a >= c.p or c.b >= c.p:
            return "coefficients are not reduced in the field"
        E = FpCurve(c.p, c.a, c.b)
    else:
        e = [x for x in c.e if x]
        if not e or any(x >= c.m for x in e) or e != sorted(set(e), reverse=True):
            return "exponents %s do not define a field of degree %d" % (c.e, c.m)
        if c.m > 700:
            return "degree %d" % c.m
        F = _field2(c.m, tuple(c.e))
        if F is None:
            return "field polynomial x^%d + %s + 1 is reducible" % (c.m, c.e)
        if c.a >> c.m or c.b >> c.m:
            return "coefficients are not reduced in the field"
        E = F2mCurve(F, c.a, c.b)
    if E.singular():
        return "curve is singular"
    return E


_soft = {}


def order_ok(E, N):
    """None if #E = N as far as can be told, else what is wrong"""
    try:
        return ec.check_order(E, N)
    except TooHard:
        key = (E.q, E.a, E.b, N, E.kind)
        if key in _soft:
            return _soft[key]
        rng = random.Random(7)
        T = E.twist()
        NT = 2 * (E.q + 1) - N
        r = None
        for _ in range(4):
            P = E.rand(rng)
            if E.mul(N, P) is not None:
                r = "%#x does not kill the point %s" % (N, ec.hexpt(P))
                break
            P = T.rand(rng)
            if T.mul(NT, P) is not None:
                r = "%#x does not kill a point of the twist" % NT
                break
        _soft[key] = r
        return r


def exact_order(E, P, n):
    try:
        return ec.has_order(E, P, n)
    except TooHard:
        return n > 1 and E.mul(n, P) is None


def prime_factors(n):
    return sorted(factor(n))


def hexdigits(bits):
    return 2 * ((bits + 7) // 8)


def curve(spec, o, role="normal"):
    out = []

    def bad(prop, cls, detail):
        out.append((prop, cls, detail))
    try:
        c = parse(spec, o)
    except Bad as e:
        return [("C07", "form", str(e))], None
    E = model(spec, c)
    if isinstance(E, str):
        bad("C01", "field-or-curve", E)
        return out, c
    c.E = E
    r = order_ok(E, c.order)
    if r:
        bad("C01", "order", "p/m=%s a=%#x b=%#x: %s" % (c.fkey[1:], c.a, c.b, r))
        return out, c
    out += generators(spec, c, role)
    if role != "invalid":
        out += points(spec, c, role)
    if role == "normal":
        out += constraints(spec, c)
    if role != "normal" or not spec.get("metadata"):
        if c.meta is not None and role == "normal":
            bad("C20", "unrequested", "metadata was not requested")
    else:
        out += metadata(spec, c)
    return out, c


def generators(spec, c, role):
    out = []
    E, N = c.E, c.order

    def bad(cls, detail):
        out.append(("C02", cls, detail))
    if N == 1:
        if c.gens and not all(g.order == 1 for g in c.gens):
            bad("generator", "trivial group with generators")
        return out
    if not c.gens:
        bad("missing", "no generators for a curve of order %#x" % N)
        return out
    for g in c.gens:
        if not E.on(g.P):
            bad("off-curve", "generator %s is not on the curve" % ec.hexpt(g.P))
            return out
        if not exact_order(E, g.P, g.order):
            bad("generator-order", "generator %s does not have order %#x" % (ec.hexpt(g.P), g.order))
            return out
        if g.cof is None:
            bad("no-cofactor", "generator without cofactor")
        elif g.cof * g.order != N:
            bad("cofactor", "cofactor %#x times order %#x is not %#x" % (g.cof, g.order, N))
    gens = c.gens
    if spec.get("cofactor") and not spec.get("unique") and role == "normal" and \
            spec.get("method") in (None, "ansi", "twist"):
        k = spec["cofactor"]
        g = gens[0]
        if g.order * k != N or not is_prime(g.order):
            out.append(("C04", "cofactor", "first generator has order %#x, not #/%d = %#x" % (g.order, k, N // k)))
        if g.cof != k:
            bad("cofactor", "the cofactor of the first generator is %s, not %d" % (g.cof, k))
        gens = gens[1:]
        if not gens:
            bad("group", "no generators of the whole group")
            return out
    if len(gens) > 2:
        bad("too-many", "%d generators" % len(gens))
    try:
        if not ec.generates(E, N, [(g.P, g.order) for g in gens]):
            bad("group", "the %d generators of orders %s do not generate the group of order %#x" % (
                len(gens), [hex(g.order) for g in gens], N))
    except TooHard:
        pass
    return out


def points(spec, c, role):
    out = []
    E = c.E

    def bad(cls, detail):
        out.append(("C03", cls, detail))
    total = 0
    for g in c.gens:
        for P, n in g.points:
            total += 1
            if not E.on(P):
                bad("off-curve", "point %s is not on the curve" % ec.hexpt(P))
                return out
            if n < 2 or not exact_order(E, P, n):
                bad("order", "point %s does not have order %#x" % (ec.hexpt(P), n))
                return out
            if g.order % n:
                bad("subgroup", "order %#x of a point does not divide that of its generator" % n)
                return out
            try:
                if not ec.in_subgroup(E, g.P, g.order, P):
                    bad("subgroup", "point %s is not in the subgroup of %s" % (ec.hexpt(P), ec.hexpt(g.P)))
            except TooHard:
                pass
    want = spec.get("points") or "prime"
    if role != "normal":
        return out
    if want == "none":
        if total:
            bad("none", "%d points though none were asked for" % total)
    elif want == "random" or want.endswith("random"):
        k = 1 if want == "random" else int(want[:-6])
        if want[:-6] == "0":
            k = 1
        if total != k:
            bad("random-count", "%d random points, %d asked for" % (total, k))
    else:
        for g in c.gens:
            try:
                if want == "prime":
                    exp = prime_factors(g.order)
                else:
                    ds = ec.divisors(g.order)
                    exp = sorted(d for d in ds if d > 1 and (want == "all" or not is_prime(d)))
            except TooHard:
                continue
            got = sorted(n for _, n in g.points)
            if got != exp:
                bad(want, "points of orders %s for a subgroup of order %#x" % ([hex(x) for x in got], g.order))
    return out


def hex_params(spec, c):
    """the strings the hex check searches"""
    o = c.raw
    w = []
    if c.seed is not None:
        w.append(c.seed.replace("0x", "").lstrip("-"))
    if spec["field"] == "p":
        w.append(o["field"]["p"])
    w += [o["a"], o["b"], o["order"]]
    w.append(",".join("%s,%s" % (s["x"], s["y"]) for s in o.get("subgroups", [])))
    w.append(",".join(",".join("%s,%s" % (p["x"], p["y"]) for p in s.get("points", [])) for s in o.get("subgroups", [])))
    return [x.lower() for x in w]


def constraints(spec, c):
    out = []
    N = c.order

    def bad(cls, detail):
        out.append(("C04", cls, detail))
    m = spec.get("method")
    if m in (None, "ansi", "twist") and spec.get("koblitz") is None or m in (None, "ansi"):
        if spec.get("prime") and not is_prime(N):
            bad("prime", "order %#x is not prime" % N)
        if spec.get("cofactor"):
            k = spec["cofactor"]
            if N % k or not is_prime(N // k):
                bad("cofactor", "order %#x is not %d times a prime" % (N, k))
        if spec.get("smooth"):
            try:
                b = max(x.bit_length() for x in factor(N)) if N > 1 else 0
                if b > spec["smooth"]:
                    bad("smooth", "order %#x has a %d-bit prime factor" % (N, b))
            except TooHard:
                bad("smooth", "order %#x has a large prime factor" % N)
        if spec.get("unique") and len(c.gens) != 1:
            bad("unique", "%d generators" % len(c.gens))
            out.append(("C02", "unique", "%d generators with --unique" % len(c.gens)))
    if spec.get("koblitz") is not None and m in (None,):
        a = spec["koblitz"]
        if c.a != a or c.b != 1:
            bad("koblitz", "a=%#x b=%#x" % (c.a, c.b))
    if spec.get("hex") and m in (None, "ansi", "twist", "brainpool", "brainpool-rfc", "family", "nums", "supersingular", "anomalous"):
        h = spec["hex"].lower()
        if len(h) > 2 and h.startswith("0x"):
            h = h[2:]
        if not any(h in w for w in hex_params(spec, c)):
            bad("hex-check", "%r is in no parameter" % h)
    bits = spec["bits"]
    r = spec.get("random") or ""
    if m in (None, "invalid", "ansi", "twist") and (r == "all" or "field" in r.split(",")):
        if spec["field"] == "p":
            if c.p.bit_length() != bits:
                bad("bits", "field %#x does not have %d bits" % (c.p, bits))
        elif c.m != bits:
            bad("bits", "degree %d, not %d" % (c.m, bits))
    if c.seed is not None and m not in ("ansi", "brainpool", "brainpool-rfc", "family"):
        bad("seed", "seed without a seeded method")
    return out


def mult_order(g, n, fac):
    """order of g modulo n"""
    lam = 1
    for p, e in fac.items():
        l = p ** (e - 1) * (p - 1)
        lam = lam * l // math.gcd(lam, l)
    o = lam
    for q in factor(lam):
        while o % q == 0 and pow(g, o // q, n) == 1 % n:
            o //= q
    return o


def fundamental(D):
    """(d, f) with D = d f^2, d a fundamental discriminant; D < 0"""
    core, f = 1, 1
    for p, e in factor(-D).items():
        if e & 1:
            core *= p
        f *= p ** (e // 2)
    core = -core
    if core % 4 == 1:
        return core, f
    if f % 2:
        return None
    return 4 * core, f // 2


def metadata(spec, c):
    out = []

    def bad(cls, detail):
        out.append(("C20", cls, detail))
    m = c.meta
    if m is None:
        bad("missing", "no metadata")
        return out
    keys = {"j", "discriminant", "frobenius"} | ({"embedding_degree", "cm_discriminant", "conductor"}
                                                 if spec["field"] == "p" else set())
    if set(m) != keys:
        bad("keys", "metadata has %s" % sorted(m))
        return out
    E, N = c.E, c.order
    t = E.q + 1 - N
    if m["j"] != E.j():
        bad("j", "j is %d, not %d" % (m["j"], E.j()))
    if m["discriminant"] != E.disc():
        bad("discriminant", "discriminant is %d, not %d" % (m["discriminant"], E.disc()))
    if m["frobenius"] != t:
        bad("frobenius", "trace is %d, not %d" % (m["frobenius"], t))
    if spec["field"] == "p":
        try:
            D = t * t - 4 * E.q
            d, f = fundamental(D)
            if (m["cm_discriminant"], m["conductor"]) != (d, f):
                bad("cm", "CM discriminant %d conductor %d, not %d %d" % (m["cm_discriminant"], m["conductor"], d, f))
        except TooHard:
            if m["cm_discriminant"] * m["conductor"] ** 2 != D:
                bad("cm", "D f^2 is not t^2-4p")
        try:
            if N == E.q:
                k = 0
            elif math.gcd(N, E.q) != 1:
                k = None
            else:
                k = mult_order(E.q % N, N, factor(N))
            if k is not None and m["embedding_degree"] != k:
                bad("embedding", "embedding degree %d, not %d" % (m["embedding_degree"], k))
        except TooHard:
            k = m["embedding_degree"]
            if k < 1 or pow(E.q, k, N) != 1:
                bad("embedding", "p^k is not 1 modulo the order")
    return out


# ---------------------------------------------------------------- documents
def is_json_prefix(s):
    """could s be the beginning of a JSON document (objects, arrays and strings only)"""
    st = []
    i, n = 0, len(s)
    # states: v value expected, k key or }, K key expected, c colon, e end of value, a value or ]
    state = "v"
    while i < n:
        ch = s[i]
        if ch in " \n\t\r":
            i += 1
            continue
        if state in ("v", "a"):
            if ch == "]" and state == "a":
                st.pop()
                state = "e"
            elif ch == "{":
                st.append("}")
                state = "k"
            elif ch == "[":
                st.append("]")
                state = "a"
            elif ch == '"':
                m = re.compile(r'"[^"\\\x00-\x1f]*').match(s, i)
                if m.end() == n:
                    return True
                if s[m.end()] != '"':
                    return False
                i = m.end()
                state = "e"
            else:
                return False
        elif state in ("k", "K"):
            if ch == "}" and state == "k":
                st.pop()
                state = "e"
            elif ch == '"':
                m = re.compile(r'"[^"\\\x00-\x1f]*').match(s, i)
                if m.end() == n:
                    return True
                if s[m.end()] != '"':
                    return False
                i = m.end()
                state = "c"
            else:
                return False
        elif state == "c":
            if ch != ":":
                return False
            state = "v"
        elif state == "e":
            if not st:
                return False
            if ch == ",":
                state = "K" if st[-1] == "}" else "v"
            elif ch == st[-1]:
                st.pop()
            else:
                return False
        i += 1
    return True


def entries(text):
    """(complete entries, how it ends): ends is 'whole', 'prefix', 'empty' or 'bad: why'"""
    if text.strip() == "":
        return [], "empty"
    try:
        d = json.loads(text)
        if not isinstance(d, list):
            return [], "bad: not an array"
        return d, "whole"
    except ValueError as e:
        why = str(e)
    if not is_json_prefix(text):
        return [], "bad: " + why
    dec = json.JSONDecoder()
    out = []
    i = text.find("[") + 1
    while True:
        while i < len(text) and text[i] in " \n\t\r,":
            i += 1
        if i >= len(text) or text[i] != "{":
            break
        try:
            o, i = dec.raw_decode(text, i)
        except ValueError:
            break
        out.append(o)
    return out, "prefix"
