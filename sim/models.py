"""Reference models of the verifiably pseudorandom procedures, written from the
published procedures and the documentation; they share no code with ecgen."""
import hashlib, math
import ec
from ec import FpCurve, is_prime, jacobi, sqrt_mod


def sha1(b):
    return int.from_bytes(hashlib.sha1(b).digest(), "big")


# ------------------------------------------------------------------ ANSI X9.62
def ansi_bits(seed_hex, t, clear_top):
    """the t-bit string the seed determines"""
    n = len(seed_hex) * 4
    seed = int(seed_hex, 16)
    s = (t - 1) // 160
    h = t - 160 * s
    g = n
    nb = (g + 7) // 8

    def H(v):
        return sha1((v << (nb * 8 - g)).to_bytes(nb, "big"))
    w = H(seed) & ((1 << h) - 1)
    if clear_top:
        w &= (1 << (h - 1)) - 1
    for i in range(1, s + 1):
        w = (w << 160) | H((seed + i) % (1 << g))
    return w


# ------------------------------------------------------------------ Brainpool
class BP:
    def __init__(self, bits, s):
        self.bits, self.s = bits, s
        self.v = (bits - 1) // 160
        self.w = bits - 160 * self.v - 1

    def hash(self, s, w):
        h = sha1(s.to_bytes(20, "big")) & ((1 << w) - 1) if w else 0
        for i in range(1, self.v + 1):
            h = (h << 160) | sha1(((s + i) % (1 << 160)).to_bytes(20, "big"))
        return h

    def bump(self):
        self.s = (self.s + 1) % (1 << 160)


def next_prime_3mod4(c):
    """the smallest prime above c that is 3 mod 4"""
    p = c + 1
    while not (p % 4 == 3 and is_prime(p)):
        p += 1
    return p


def is_fourth_power(x, p):
    """p = 3 mod 4: a square is a fourth power"""
    return x == 0 or jacobi(x, p) == 1


def brainpool(bits, seed, rfc, limit=400):
    """(final seed, p, a, b, order, x of the generator, y up to sign) or None"""
    B = BP(bits, seed)
    update = False
    for _ in range(limit):
        # the field
        while True:
            if update:
                B.bump()
                update = False
            c = B.hash(B.s, B.w + 1)
            p = next_prime_3mod4(c)
            if not (1 << (bits - 1)) - 1 < p < 1 << bits:
                B.bump()
                continue
            break
        update = True
        # the coefficients
        while True:
            if update:
                B.bump()
                update = False
            a = B.hash(B.s, B.w)
            if a % p == 0:
                B.bump()
                continue
            if not is_fourth_power(-3 * pow(a, -1, p) % p, p):
                B.bump()
                continue
            if rfc:
                while True:
                    B.bump()
                    b = B.hash(B.s, B.w)
                    if b % p != 0 and jacobi(b, p) == -1:
                        break
            else:
                B.bump()
                b = B.hash(B.s, B.w)
                if b % p != 0 and jacobi(b, p) != 1:
                    B.bump()
                    continue
            if (4 * a ** 3 + 27 * b * b) % p == 0:
                B.bump()
                continue
            break
        update = True
        E = FpCurve(p, a, b)
        N = ec.group_order(E)
        if not is_prime(N) or N >= p:
            continue
        # the generator
        B.bump()
        k = B.hash(B.s, B.w)
        x = 0
        while E.lift(x) is None:
            x += 1
        G = E.mul(k, E.lift(x))
        if G is None:
            continue
        # embedding degree
        fac = ec.factor(N - 1)
        o = N - 1
        for q in fac:
            while o % q == 0 and pow(p, o // q, N) == 1:
                o //= q
        if (N - 1) // 100 >= o:
            continue
        return B.s, p, a, b, N, G
    return None


# ------------------------------------------------------------------ NUMS
def nums(bits, limit=4000):
    c = 1
    while not is_prime((1 << bits) - c):
        c += 4
    p = (1 << bits) - c
    for b in [1] + list(range(3, limit)):
        E = FpCurve(p, p - 3, b)
        if E.singular():
            continue
        N = ec.group_order(E)
        t = p + 1 - N
        if not is_prime(N) or not is_prime(N + 2 * t) or N == p:
            continue
        fac = ec.factor(N - 1)
        o = N - 1
        for q in fac:
            while o % q == 0 and pow(p, o // q, N) == 1:
                o //= q
        if (N - 1) // 100 >= o:
            continue
        x = 1
        while E.lift(x) is None:
            x += 1
        P = E.lift(x)
        return p, p - 3, b, N, (x, min(P[1], p - P[1]))
    return None


# ------------------------------------------------------------------ families
def _q(n, d):
    return n // d if n % d == 0 else None


FAMILY = {
    "BN": (lambda z: z,
           lambda z: 36 * z**4 + 36 * z**3 + 24 * z**2 + 6 * z + 1,
           lambda z: 36 * z**4 + 36 * z**3 + 18 * z**2 + 6 * z + 1, 12),
    "BLS12": (lambda z: z,
              lambda z: _q((z - 1)**2 * (z**4 - z**2 + 1) + 3 * z, 3),
              lambda z: z**4 - z**2 + 1, 12),
    "BLS24": (lambda z: z,
              lambda z: _q((z - 1)**2 * (z**8 - z**4 + 1) + 3 * z, 3),
              lambda z: z**8 - z**4 + 1, 24),
    "KSS16": (lambda z: 70 * z + 25,
              lambda z: _q(z**10 + 2 * z**9 + 5 * z**8 + 48 * z**6 + 152 * z**5 + 240 * z**4 + 625 * z**2 + 2398 * z + 3125, 980),
              lambda z: _q(z**8 + 48 * z**4 + 625, 61250), 16),
    "KSS18": (lambda z: 42 * z + 14,
              lambda z: _q(z**8 + 5 * z**7 + 7 * z**6 + 37 * z**5 + 188 * z**4 + 259 * z**3 + 343 * z**2 + 1763 * z + 2401, 21),
              lambda z: _q(z**6 + 37 * z**3 + 343, 343), 18),
    "KSS36": (lambda z: 777 * z + 287,
              lambda z: _q(z**14 - 4 * z**13 + 7 * z**12 + 683 * z**8 - 2510 * z**7 + 4781 * z**6 + 117649 * z**2 - 386569 * z + 823543, 28749),
              lambda z: _q(z**12 + 683 * z**6 + 117649, 161061481), 36),
    "KSS40": (lambda z: 2370 * z + 1205,
              lambda z: _q(z**22 - 2 * z**21 + 5 * z**20 + 6232 * z**12 - 10568 * z**11 + 31160 * z**10 + 9765625 * z**2 - 13398638 * z + 48828125, 1123380),
              lambda z: _q(z**16 + 8 * z**14 + 39 * z**12 + 112 * z**10 - 79 * z**8 + 2800 * z**6 + 24375 * z**4 + 125000 * z**2 + 390625, 2437890625), 40),
}


def family_params(name, z):
    n, p, r, k = FAMILY[name]
    m = n(z)
    return p(m), r(m), k


def family_ok(name, z):
    p, r, _ = family_params(name, z)
    return p is not None and r is not None and p > 3 and r > 1 and is_prime(p) and is_prime(r)
