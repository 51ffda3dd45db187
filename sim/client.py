"""Talks to the simulator binary: one plan in, one reply (outcome + trace) out."""
import os, select, struct, subprocess, sys

OUTC = ["END", "BUDGET", "DEADLOCK", "CRASH", "STUCK", "RECFULL", "SIMBUG", "ABANDON"]
VNAMES = ["ticks", "clock", "hash", "nalloc", "nheavy", "nswitch", "nblock", "nsignal",
          "nsync", "timers_live", "peak_heap", "last_heap", "peak_blocks", "v13"]
HDR = struct.Struct("<QIIII14Q256sQ")
REC = struct.Struct("<BBHIQQqq")


class Slow(Exception):
    """the run took too much real time: nothing can be said about it"""


class SimError(Exception):
    pass


class Rec:
    __slots__ = ("t", "th", "tick", "clock", "a", "b", "data")

    def __init__(self, t, th, tick, clock, a, b, data):
        self.t, self.th, self.tick, self.clock, self.a, self.b, self.data = t, th, tick, clock, a, b, data

    def __repr__(self):
        return "%s th%d @%d +%d a=%d b=%d %r" % (self.t, self.th, self.tick, self.clock, self.a, self.b, self.data[:60])


class Sim:
    def __init__(self, binary):
        self.binary = binary
        self.p = None
        self.runs = 0

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
        if os.environ.get("SIM_COV"):
            env["SIM_COV"] = os.environ["SIM_COV"]
        self.p = subprocess.Popen(["setarch", "-R", self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG") else None,
                                  env=env, cwd="/")

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def _read(self, n):
        out = bytearray()
        fd = self.p.stdout.fileno()
        while len(out) < n:
            d = os.read(fd, n - len(out))
            if not d:
                raise SimError("simulator server died")
            out += d
        return bytes(out)

    def raw(self, text):
        if self.p is None:
            self.start()
        b = text.encode()
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()
        h = HDR.unpack(self._read(HDR.size))
        if h[0] != 0x51e7:
            raise SimError("bad reply")
        recs = self._read(h[-1])
        self.runs += 1
        return h, recs


if __name__ == "__main__":
    import build
    s = Sim(build.build())
    import time
    argv = ["ecgen"] + sys.argv[1:]
    plan = "".join("arg %s\n" % a.encode().hex() for a in argv)
    plan += "entropy 5\nnproc 4\n"
    for _ in range(3):
        t = time.time()
        h, r = s.raw(plan)
        print(time.time() - t, OUTC[h[1]], h[2:4], dict(zip(VNAMES, h[5:19])), h[19].split(b"\0")[0], len(r))
    i = 0
    while i < len(r):
        q = REC.unpack_from(r, i)
        i += REC.size
        print(chr(q[0]), q[1], q[4:], r[i:i + q[3]][:300])
        i += q[3]
