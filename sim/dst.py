"""Cases (one simulated run of ecgen each), results, replay and minimisation.

A case is a plain dict, so that it can be written to a replay file:
  spec    the command line, as options (see argv())
  stdin   hex of what standard input offers
  files   {path: hex of the initial content}
  knobs   {plan directive: value}, e.g. entropy, nproc, tickns, budget, reuse
  faults  [plan line], the injected faults: what minimisation removes
  sched   "mode seed mean sync spur" or "" for no preemption
  dec     [plan line], explicit scheduling decisions
Everything a run does is a function of the case and of the binary."""
import collections, copy, json, os, struct
import client
from client import HDR, REC, OUTC

BUDGET = 400_000_000


def argv(s):
    a = []
    if s.get("field") == "p":
        a.append("--fp")
    elif s.get("field") == "2":
        a.append("--f2m")
    m = s.get("method")
    if m == "ansi" or m == "brainpool" or m == "brainpool-rfc":
        a.append("--" + m + ("=" + s["seed"] if s.get("seed") else ""))
    elif m == "nums" or m == "twist" or m == "anomalous" or m == "supersingular":
        a.append("--" + m)
    elif m == "invalid":
        a.append("--invalid" + ("=" + s["range"] if s.get("range") else ""))
    elif m == "order":
        a += ["-n", s["order"]]
    elif m == "family":
        a += ["-F", s["family"]]
    r = s.get("random")
    if r == "all":
        a.append("-r")
    elif r:
        a.append("--random=" + r)
    if s.get("prime"):
        a.append("-p")
    if s.get("cofactor"):
        a += ["-k", str(s["cofactor"])]
    if s.get("smooth"):
        a += ["-B", str(s["smooth"])]
    if s.get("koblitz") is not None:
        a.append("-K%d" % s["koblitz"])
    if s.get("unique"):
        a.append("-u")
    if s.get("hex"):
        a.append("--hex-check=" + s["hex"])
    if s.get("points"):
        a.append("--points=" + s["points"])
    if s.get("count"):
        a += ["-c", str(s["count"])]
    if s.get("metadata"):
        a.append("--metadata")
    if s.get("input"):
        a += ["-f", s["input"]]
    if s.get("output"):
        a += ["-o", s["output"]]
    if s.get("append"):
        a.append("-a")
    v = s.get("verbose")
    if v == "std":
        a.append("-v")
    elif v:
        a.append("--verbose=" + v)
    if s.get("memory"):
        a += ["-m", s["memory"]]
    if s.get("threads"):
        a.append("--threads=" + str(s["threads"]))
    if s.get("tstack"):
        a.append("--thread-stack=" + s["tstack"])
    if s.get("timeout"):
        a.append("--timeout=" + s["timeout"])
    a += s.get("extra", [])
    a.append(str(s["bits"]))
    return a


def case(spec, stdin=None, files=None, faults=(), sched="", dec=(), dirs=(), **knobs):
    k = {"entropy": 1, "nproc": 4, "budget": BUDGET}
    k.update(knobs)
    return {"spec": spec, "stdin": stdin.hex() if isinstance(stdin, bytes) else stdin,
            "files": {p: (v.hex() if isinstance(v, bytes) else v) for p, v in (files or {}).items()},
            "dirs": list(dirs), "knobs": k, "faults": list(faults), "sched": sched, "dec": list(dec)}


def with_(c, **kw):
    c = copy.copy(c)
    if "knobs" in kw:
        k = dict(c["knobs"])
        k.update(kw.pop("knobs"))
        c["knobs"] = k
    c.update(kw)
    return c


def plan(c):
    out = []
    for a in ["ecgen"] + argv(c["spec"]):
        out.append("arg " + a.encode().hex())
    if c.get("stdin"):
        out.append("in " + c["stdin"])
    for p in sorted(c["files"]):
        out.append("file %s %s" % (p, c["files"][p]))
    for p in c.get("dirs", ()):
        out.append("dir " + p)
    for k in sorted(c["knobs"]):
        v = c["knobs"][k]
        if v is not None:
            out.append("%s %s" % (k, v))
    if c["sched"]:
        out.append("sched " + c["sched"])
    out += c["dec"]
    out += c["faults"]
    return "\n".join(out) + "\n"


class Res:
    __slots__ = ("outcome", "status", "exit", "sig", "hash", "note", "cnt", "raw", "_ev", "_f", "paths", "c")

    def __init__(self, h, raw, c):
        self.outcome = OUTC[h[1]]
        st = h[2]
        self.status = st
        self.exit = (st >> 8) & 255 if self.outcome == "END" and not st & 127 else None
        self.sig = st & 127 if self.outcome == "END" else 0
        self.cnt = dict(zip(client.VNAMES, h[5:19]))
        self.hash = self.cnt["hash"]
        self.note = h[19].split(b"\0")[0].decode(errors="replace")
        self.raw = raw
        self._ev = self._f = None
        self.c = c

    @property
    def ev(self):
        """[(type, thread, tick, clock, a, b, data)]"""
        if self._ev is None:
            out, i, raw, n = [], 0, self.raw, len(self.raw)
            while i < n:
                t, th, _, ln, tick, clock, a, b = REC.unpack_from(raw, i)
                i += REC.size
                out.append((chr(t), th, tick, clock, a, b, raw[i:i + ln]))
                i += ln
            self._ev = out
        return self._ev

    def _files(self):
        if self._f is None:
            paths = {0: "@in", 1: "@out", 2: "@err"}
            known = [p for p in sorted(self.c["files"])]
            for i, p in enumerate(known):
                paths[3 + i] = p
            cont = {"@out": bytearray(), "@err": bytearray()}
            for p, v in self.c["files"].items():
                cont[p] = bytearray(bytes.fromhex(v))
            for t, th, tick, clock, a, b, d in self.ev:
                if t == "O":
                    p = d.decode(errors="replace")
                    paths[a] = p
                    if b == ord("w"):
                        cont[p] = bytearray()
                    elif b == ord("a"):
                        cont.setdefault(p, bytearray())
                elif t == "W":
                    cont.setdefault(paths.get(a, "?%d" % a), bytearray()).extend(d)
            self._f = {k: bytes(v) for k, v in cont.items()}
            self.paths = paths
        return self._f

    def file(self, p):
        return self._files().get(p)

    @property
    def out(self):
        return self._files()["@out"]

    @property
    def err(self):
        return self._files()["@err"]

    def summary(self):
        s = self.outcome
        if self.outcome == "END":
            s = "killed by signal %d" % self.sig if self.sig else "exit %d" % self.exit
        return s + (" (%s)" % self.note if self.note else "")


class Runner:
    """runs cases on a private simulator server, counting what it did"""

    def __init__(self, binary):
        self.sim = client.Sim(binary)
        self.runs = 0
        self.clock = 0
        self.ticks = 0
        self.hashes = set()
        self.sched_hashes = set()
        self.fired = collections.Counter()
        self.outcomes = collections.Counter()

    def run(self, c):
        for attempt in (0, 1):
            try:
                h, raw = self.sim.raw(plan(c))
                break
            except (client.SimError, OSError):
                self.sim.stop()
                if attempt:
                    raise
        if h[3]:
            raise client.Slow("killed after too much real time")
        r = Res(h, raw, c)
        self.runs += 1
        self.clock += r.cnt["clock"]
        self.ticks += r.cnt["ticks"]
        self.hashes.add(r.hash)
        self.outcomes[r.summary() if r.outcome == "END" else r.outcome] += 1
        if r.outcome == "SIMBUG":
            raise client.SimError("simulator limit: %s; plan %r" % (r.note, plan(c)[:1500]))
        self.count_faults(r)
        return r

    def count_faults(self, r):
        F = self.fired
        sch = []
        for t, th, tick, clock, a, b, d in r.ev:
            if t in "sbqu":
                F[{"s": "preemption", "b": "wake-up order", "q": "signal target", "u": "spurious wake-up"}[t]] += 1
                sch.append((t, tick, a, b))
            elif t == "w":
                F["write error"] += 1
            elif t == "r":
                F["read error"] += 1
            elif t == "o":
                F["open failure"] += 1
            elif t == "M":
                F["allocation failure"] += 1
            elif t == "L":
                F["slow I/O" if b else "stall"] += 1
            elif t == "F":
                F["timer expiry"] += 1
            elif t == "H":
                F["hung computation"] += 1
            elif t == "K":
                F["crash"] += 1
            elif t == "f":
                F["thread creation failure"] += 1
            elif t == "A":
                F["clock jump to next event"] += 1
        if sch:
            self.sched_hashes.add(hash(tuple(sch)))
        for l in r.c["faults"]:
            w = l.split()
            if w[0] == "io" and len(w) > 4:
                F["planned io %s %s" % (w[2], w[4])] += 1
            elif w[0] == "rchunk":
                F["short reads"] += 1
        if r.c["knobs"].get("memfill"):
            F["dirty memory"] += 1
        if r.c["knobs"].get("reuse"):
            F["heap reuse policy"] += 1
        if r.c["knobs"].get("place"):
            F["moved heap, stack and mappings"] += 1
        if r.c["knobs"].get("pid"):
            F["another process number"] += 1

    def close(self):
        self.sim.stop()


def explicit(c, r):
    """the same run with every scheduling decision written down"""
    dec = []
    for t, th, tick, clock, a, b, d in r.ev:
        if t == "s":
            dec.append("ssw %d %d" % (b - 1, a) if b else "sw %d %d" % (tick, a))
        elif t == "b":
            dec.append("blk %d %d" % (a, b))
        elif t == "q":
            dec.append("sig %d %d" % (a, b))
        elif t == "u":
            dec.append("spur %d %d" % (a, b))
    return with_(c, sched="", dec=c["dec"] + dec)


def ddmin(items, test, limit):
    """a smaller list for which test still holds; at most `limit` tests"""
    n, used = 2, 0
    if items and limit > 0:
        used += 1
        if test([]):
            return []
    while len(items) >= 2 and used < limit:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        done = False
        for i in range(len(chunks)):
            if used >= limit:
                break
            rest = [x for j, ch in enumerate(chunks) if j != i for x in ch]
            used += 1
            if test(rest):
                items, n, done = rest, max(2, n - 1), True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items
