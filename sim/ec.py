"""Elliptic curve arithmetic over F_p and F_2^m, written from the definitions and
independent of PARI and of ecgen.  Everything ecgen prints is judged with this."""
import math
import os
import random
import select
import subprocess

# ---------------------------------------------------------------- integers
_SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def is_prime(n):
    if n < 2:
        return False
    for p in _SMALL[:60]:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    bases = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
    if n >= 3317044064679887385961981:
        rng = random.Random(n)
        bases = bases + [rng.randrange(2, n - 1) for _ in range(16)]
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _rho(n, c):
    y = 2
    m, g, r, q = 64, 1, 1, 1
    while g == 1:
        x = y
        for _ in range(r):
            y = (y * y + c) % n
        k = 0
        while k < r and g == 1:
            ys = y
            for _ in range(min(m, r - k)):
                y = (y * y + c) % n
                q = q * (x - y) % n
            g = math.gcd(q, n)
            k += m
        r *= 2
        if r > 1 << 22:
            return None
    if g == n:
        while True:
            ys = (ys * ys + c) % n
            g = math.gcd(x - ys, n)
            if g > 1:
                break
    return g


class TooHard(Exception):
    pass


_fcache = {}
_helper = []
_hard = set()


def ask(what, *nums):
    """numbers from the helper, or []; only hints"""
    if not _helper or _helper[0] != os.getpid():
        _helper[:] = [os.getpid(), None, 0]
    if _helper[2] > 3:
        return []
    try:
        if _helper[1] is None:
            import build
            _helper[1] = subprocess.Popen([build.helper()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL)
        h = _helper[1]
        h.stdin.write((what + "".join(" %d" % n for n in nums) + "\n").encode())
        h.stdin.flush()
        if select.select([h.stdout], [], [], 60)[0]:
            l = h.stdout.readline()
            if l:
                return [int(x) for x in l.split()]
    except Exception:
        pass
    _helper[2] += 1
    if _helper[1] is not None:
        _helper[1].kill()
        _helper[1] = None
    return []


def factor(n):
    """{prime: exponent}"""
    if n in _fcache:
        return _fcache[n]
    res, todo = {}, []
    m = n
    for p in _SMALL:
        while m % p == 0:
            res[p] = res.get(p, 0) + 1
            m //= p
    if m > 1:
        todo.append(m)
    while todo:
        x = todo.pop()
        if x == 1:
            continue
        if is_prime(x):
            res[x] = res.get(x, 0) + 1
            continue
        r = math.isqrt(x)
        if r * r == x:
            todo += [r, r]
            continue
        if x >> 50:
            found = 0
            for p in ask("f", x):
                while p > 1 and x % p == 0 and is_prime(p):
                    res[p] = res.get(p, 0) + 1
                    x //= p
                    found = 1
            if found:
                todo.append(x)
                continue
        if x in _hard:
            raise TooHard(x)
        for c in range(1, 20):
            g = _rho(x, c)
            if g is None:
                _hard.add(x)
                raise TooHard(x)
            if g != x:
                todo += [g, x // g]
                break
        else:
            raise TooHard(x)
    if len(_fcache) > 20000:
        _fcache.clear()
    _fcache[n] = res
    return res


def divisors(n):
    ds = [1]
    for p, e in factor(n).items():
        ds = [d * p ** k for d in ds for k in range(e + 1)]
    return sorted(ds)


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def sqrt_mod(a, p):
    a %= p
    if a == 0:
        return 0
    if p == 2:
        return a
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r


# ---------------------------------------------------------------- curves over F_p
class FpCurve:
    def __init__(self, p, a, b):
        self.p, self.a, self.b, self.q = p, a % p, b % p, p
        self.kind = "p"

    def disc(self):
        return -16 * (4 * self.a ** 3 + 27 * self.b ** 2) % self.p

    def singular(self):
        return self.disc() == 0

    def j(self):
        p = self.p
        return -1728 * pow(4 * self.a, 3, p) * pow(self.disc(), -1, p) % p

    def on(self, P):
        if P is None:
            return True
        x, y = P
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        x1, y1 = P
        x2, y2 = Q
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            l = (3 * x1 * x1 + self.a) * pow(2 * y1, -1, p) % p
        else:
            l = (y2 - y1) * pow(x2 - x1, -1, p) % p
        x = (l * l - x1 - x2) % p
        return (x, (l * (x1 - x) - y1) % p)

    def _dbl(self, X, Y, Z):
        p = self.p
        if not Y or not Z:
            return 1, 1, 0
        YY = Y * Y % p
        S = 4 * X * YY % p
        ZZ = Z * Z % p
        M = (3 * X * X + self.a * ZZ * ZZ) % p
        X3 = (M * M - 2 * S) % p
        return X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p

    def mul(self, k, P):
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(-k, self.neg(P))
        p = self.p
        if p.bit_length() < 24 and k < 8 or p < 5:
            R = None
            while k:
                if k & 1:
                    R = self.add(R, P)
                k >>= 1
                P = self.add(P, P)
            return R
        x, y = P
        X, Y, Z = x, y, 1
        for bit in bin(k)[3:]:
            X, Y, Z = self._dbl(X, Y, Z)
            if bit == "1":
                if not Z:
                    X, Y, Z = x, y, 1
                    continue
                ZZ = Z * Z % p
                U = x * ZZ % p
                S = y * ZZ * Z % p
                H = (U - X) % p
                R = (S - Y) % p
                if not H:
                    if R:
                        X, Y, Z = 1, 1, 0
                    else:
                        X, Y, Z = self._dbl(X, Y, Z)
                    continue
                HH = H * H % p
                HHH = HH * H % p
                V = X * HH % p
                X3 = (R * R - HHH - 2 * V) % p
                Y = (R * (V - X3) - Y * HHH) % p
                X = X3
                Z = Z * H % p
        if not Z:
            return None
        zi = pow(Z, -1, p)
        z2 = zi * zi % p
        return (X * z2 % p, Y * z2 * zi % p)

    def lift(self, x):
        y = sqrt_mod(x ** 3 + self.a * x + self.b, self.p)
        return None if y is None else (x % self.p, y)

    def rand(self, rng):
        while True:
            P = self.lift(rng.randrange(self.p))
            if P is not None:
                return P if rng.random() < .5 else self.neg(P)

    def twist(self):
        p = self.p
        d = 2
        while jacobi(d, p) != -1:
            d += 1
        return FpCurve(p, self.a * d * d, self.b * d ** 3)

    def count(self):
        p = self.p
        n = 1
        sq = [0] * p
        for y in range(p):
            sq[y * y % p] += 1
        for x in range(p):
            n += sq[(x * x * x + self.a * x + self.b) % p]
        return n


# ---------------------------------------------------------------- binary fields
def pmulmod(a, b, f, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> m:
            a ^= f
    return r


_SPREAD = []
for _i in range(256):
    _v = 0
    for _k in range(8):
        if _i >> _k & 1:
            _v |= 1 << (2 * _k)
    _SPREAD.append(_v)


class F2m:
    def __init__(self, m, exps):
        self.m = m
        self.exps = sorted(set(exps) | {0})
        self.f = 1 << m
        for e in self.exps:
            self.f |= 1 << e

    def reduce(self, c):
        m = self.m
        while c >> m:
            h = c >> m
            c &= (1 << m) - 1
            for e in self.exps:
                c ^= h << e
        return c

    def mul(self, a, b):
        # 4-bit windowed carry-less product
        if a < b:
            a, b = b, a
        t = [0] * 16
        t[1] = a
        for i in range(2, 16, 2):
            t[i] = t[i >> 1] << 1
            t[i + 1] = t[i] ^ a
        r = 0
        for i in range((b.bit_length() + 3) // 4 * 4 - 4, -1, -4):
            r = (r << 4) ^ t[(b >> i) & 15]
        return self.reduce(r)

    def sqr(self, a):
        r = 0
        s = 0
        while a:
            r |= _SPREAD[a & 255] << s
            a >>= 8
            s += 16
        return self.reduce(r)

    def inv(self, a):
        u, v, g1, g2 = a, self.f, 1, 0
        while u != 1:
            j = u.bit_length() - v.bit_length()
            if j < 0:
                u, v, g1, g2, j = v, u, g2, g1, -j
            u ^= v << j
            g1 ^= g2 << j
        return self.reduce(g1)

    def trace(self, a):
        if not hasattr(self, "_tmask"):
            # the trace is linear: which powers of x have trace one
            self._tmask = 0
            for i in range(self.m):
                b = t = 1 << i
                for _ in range(self.m - 1):
                    t = self.sqr(t) ^ b
                self._tmask |= (t & 1) << i
        return bin(a & self._tmask).count("1") & 1

    def trace_one(self):
        self.trace(1)
        return self._tmask & -self._tmask

    def irreducible(self):
        """Rabin's test"""
        f, m = self.f, self.m

        def gcd(a, b):
            while b:
                while a.bit_length() >= b.bit_length() and a:
                    a ^= b << (a.bit_length() - b.bit_length())
                a, b = b, a
            return a
        x = self.reduce(2)
        pw = {0: x}
        t = x
        for i in range(1, m + 1):
            t = self.sqr(t)
            pw[i] = t
        if t != x:
            return False
        for q in factor(m) if m > 1 else []:
            if gcd(f, pw[m // q] ^ x) != 1:
                return False
        return True


class F2mCurve:
    """y^2 + xy = x^3 + a x^2 + b"""

    def __init__(self, field, a, b):
        self.F, self.a, self.b, self.q = field, a, b, 1 << field.m
        self.kind = "2"

    def disc(self):
        return self.b

    def singular(self):
        return self.b == 0

    def j(self):
        return self.F.inv(self.b)

    def on(self, P):
        if P is None:
            return True
        x, y = P
        if x >> self.F.m or y >> self.F.m or x < 0 or y < 0:
            return False
        F = self.F
        x2 = F.sqr(x)
        return F.sqr(y) ^ F.mul(x, y) == F.mul(x2, x ^ self.a) ^ self.b

    def neg(self, P):
        return None if P is None else (P[0], P[0] ^ P[1])

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        F = self.F
        x1, y1 = P
        x2, y2 = Q
        if x1 == x2:
            if y1 != y2 or x1 == 0:
                return None
            l = x1 ^ F.mul(y1, F.inv(x1))
            x = F.sqr(l) ^ l ^ self.a
            return (x, F.sqr(x1) ^ F.mul(l ^ 1, x))
        l = F.mul(y1 ^ y2, F.inv(x1 ^ x2))
        x = F.sqr(l) ^ l ^ x1 ^ x2 ^ self.a
        return (x, F.mul(l, x1 ^ x) ^ x ^ y1)

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = None
        for bit in bin(k)[2:] if k else "":
            R = self.add(R, R)
            if bit == "1":
                R = self.add(R, P)
        return R

    def lift(self, x):
        F = self.F
        if x == 0:
            s = self.b
            for _ in range(F.m - 1):
                s = F.sqr(s)
            return (0, s)
        c = x ^ self.a ^ F.mul(self.b, F.inv(F.sqr(x)))
        if F.trace(c):
            return None
        z = self.halftrace(c)
        if F.sqr(z) ^ z != c:
            return None
        return (x, F.mul(x, z))

    def halftrace(self, c):
        """some z with z^2 + z = c, if there is one"""
        F = self.F
        m = F.m
        if m % 2:
            z = c
            for _ in range((m - 1) // 2):
                z = F.sqr(F.sqr(z)) ^ c
            return z
        if not hasattr(F, "_tau"):
            F._tau = F.trace_one()
        # z = sum_{i<m-1} (sum_{k>i} tau^(2^k)) c^(2^i)
        pw = []
        t = F._tau
        for _ in range(m):
            pw.append(t)
            t = F.sqr(t)
        suf = [0] * (m + 1)
        for i in range(m - 1, -1, -1):
            suf[i] = suf[i + 1] ^ pw[i]
        z, ci = 0, c
        for i in range(m - 1):
            z ^= F.mul(suf[i + 1], ci)
            ci = F.sqr(ci)
        return z

    def rand(self, rng):
        while True:
            P = self.lift(rng.randrange(self.q))
            if P is not None:
                return P if rng.random() < .5 else self.neg(P)

    def twist(self):
        F = self.F
        return F2mCurve(F, self.a ^ F.trace_one(), self.b)

    def count(self):
        F = self.F
        n = 2
        for x in range(1, self.q):
            c = x ^ self.a ^ F.mul(self.b, F.inv(F.sqr(x)))
            if F.trace(c) == 0:
                n += 2
        return n


# ---------------------------------------------------------------- groups
def point_order(C, P, N, fac=None):
    """exact order of P, knowing N*P = O"""
    if fac is None:
        fac = factor(N)
    o = N
    for q, e in fac.items():
        for _ in range(e):
            if o % q == 0 and C.mul(o // q, P) is None:
                o //= q
            else:
                break
    return o


def has_order(C, P, n):
    """is n the exact order of P"""
    if n < 1 or C.mul(n, P) is not None:
        return False
    return all(C.mul(n // q, P) is not None for q in factor(n))


_ocache = {}


def check_order(C, N, seed=1):
    """None if #C == N is established, else what is wrong.  Exact: for tiny fields by
    counting; otherwise by finding points (on C or its twist) whose orders leave N as
    the only multiple in the Hasse interval, or a point N does not kill."""
    key = (C.kind, C.q, C.F.f if C.kind == "2" else 0, C.a, C.b, N)
    if key in _ocache:
        return _ocache[key]
    r = _check_order(C, N, seed)
    if len(_ocache) > 50000:
        _ocache.clear()
    _ocache[key] = r
    return r


def _check_order(C, N, seed):
    q = C.q
    t = q + 1 - N
    if t * t > 4 * q:
        return "order %#x is outside the Hasse interval" % N
    if q <= 512:
        n = C.count()
        return None if n == N else "order is %#x, not %#x" % (n, N)
    rng = random.Random(seed)
    width = 2 * math.isqrt(4 * q) + 2
    # cheap refutation first
    for _ in range(3):
        P = C.rand(rng)
        if C.mul(N, P) is not None:
            return "%#x does not kill the point %s" % (N, hexpt(P))
    L, LT = 1, 1
    fac = factor(N)
    T = C.twist()
    NT = 2 * (q + 1) - N
    facT = None
    for i in range(200):
        P = C.rand(rng)
        if C.mul(N, P) is not None:
            return "%#x does not kill the point %s" % (N, hexpt(P))
        o = point_order(C, P, N, fac)
        L = L * o // math.gcd(L, o)
        if L > width:
            return None
        if i >= 6:
            P = T.rand(rng)
            if T.mul(NT, P) is not None:
                return "%#x does not kill a point of the twist" % NT
            if facT is None:
                facT = factor(NT)
            o = point_order(T, P, NT, facT)
            LT = LT * o // math.gcd(LT, o)
            if LT > width:
                return None
            # both: n = N mod L and 2q+2-n = NT mod LT
            if L * LT // math.gcd(L, LT) > width:
                return None
    if q < 1 << 20:
        n = C.count()
        return None if n == N else "order is %#x, not %#x" % (n, N)
    raise TooHard(N)


def hexpt(P):
    return "O" if P is None else "(%#x, %#x)" % P


def dlog_prime_power(C, G, X, l, s):
    """k with X = kG where G has order l^s, or None"""
    k = 0
    g = C.mul(l ** (s - 1), G)
    if l > 1 << 24:
        raise TooHard(l)
    m = math.isqrt(l) + 1
    table = {}
    R = None
    for i in range(m):
        table.setdefault(R, i)
        R = C.add(R, g)
    giant = C.neg(C.mul(m, g))
    for i in range(s):
        Y = C.mul(l ** (s - 1 - i), C.add(X, C.neg(C.mul(k, G))))
        d = None
        for jj in range(m + 1):
            if Y in table:
                d = (table[Y] + jj * m) % l
                break
            Y = C.add(Y, giant)
        if d is None:
            return None
        k += d * l ** i
    return k if C.mul(k, G) == X else None


def in_subgroup(C, G, n, P):
    """is P in <G>, G of order n"""
    if P is None:
        return True
    if C.mul(n, P) is not None:
        return False
    for l, e in factor(n).items():
        m = n // l ** e
        Pl = C.mul(m, P)
        if Pl is None:
            continue
        if dlog_prime_power(C, C.mul(m, G), Pl, l, e) is None:
            return False
    return True


def generates(C, N, gens):
    """do the points gens (with exact orders) generate the group of order N"""
    if not gens:
        return N == 1
    (P, n1) = gens[0]
    if n1 == N:
        return True
    if len(gens) == 1 or N % n1:
        return False
    (Q, n2) = gens[1]
    d2 = N // n1
    for l in factor(d2):
        v = factor(N)[l]
        m = N // l ** v
        X = C.mul(m * (d2 // l), Q)
        G = C.mul(m, P)
        s = 0
        t = n1
        while t % l == 0:
            t //= l
            s += 1
        if s == 0:
            if X is None:
                return False
            continue
        if X is None or dlog_prime_power(C, G, X, l, s) is not None:
            return False
    return True


# ---------------------------------------------------------------- counting points
def _multiples(C, P, lo, hi):
    """all n in [lo, hi] with nP = O, by baby steps and giant steps"""
    w = hi - lo
    m = math.isqrt(w) + 1
    table = {}
    R = None
    for i in range(m):
        table.setdefault(R, []).append(i)
        R = C.add(R, P)
    # n = lo + k*m + i: (lo + k*m)P = -iP
    G = C.mul(m, P)
    S = C.mul(lo, P)
    out = []
    for k in range(w // m + 1):
        for i in table.get(C.neg(S) if S is not None else None, ()):
            n = lo + k * m + i
            if n <= hi:
                out.append(n)
        S = C.add(S, G)
    return out


def group_order(C, seed=3):
    """#C, independently of anything ecgen says"""
    q = C.q
    if q <= 256:
        return C.count()
    if q >> 40:
        n = ask("c", q, C.a, C.b) if C.kind == "p" else ask("b", *([C.F.m] + ([e for e in C.F.exps if e] + [0, 0])[:3] + [C.a, C.b]))
        try:
            if n and check_order(C, n[0]) is None:
                return n[0]
        except TooHard:
            pass
        if q >> 72:
            raise TooHard(q)
    rng = random.Random(seed)
    s = math.isqrt(4 * q)
    cand = None
    T = C.twist()
    for i in range(60):
        E = C if i % 2 == 0 else T
        P = E.rand(rng)
        if cand is None:
            cand = _multiples(E, P, q + 1 - s, q + 1 + s)
        else:
            cand = [n for n in cand if E.mul(n if E is C else 2 * (q + 1) - n, P) is None]
        if len(cand) == 1:
            return cand[0]
    return C.count()


def is_cyclic(C, N, seed=11):
    """is the group of order N cyclic (wrong with probability below 2^-40)"""
    rng = random.Random(seed)
    for l, v in factor(N).items():
        if v < 2 or (C.q - 1) % l:
            continue
        if C.kind == "2" and l == 2:
            continue        # binary curves have at most one point of order 2
        cof = N // l ** v
        for _ in range(42):
            Q = C.mul(cof, C.rand(rng))
            if Q is not None and C.mul(l ** (v - 1), Q) is not None:
                break
        else:
            return False
    return True
