"""P19: the retrying stream against RetryStream.tla. All short histories of operations and low
level faults are enumerated by TLC and replayed on the real stream."""

import json
import random

import vlib
from vlib import Check, check_model, collect, run_tlc, scratch

from megatron.energon.epathlib import EPath
from megatron.energon.retry_stream import RetryReadStream


class Low:
    """The unreliable file system below one stream."""

    def __init__(self, data, script):
        self.data = data
        self.script = list(script)
        self.fails = 0
        self.on = False
        self.opened = 0
        self.closed = 0

    def next(self):
        return self.script.pop(0) if self.on and self.script else "ok"

    def fail(self, what):
        self.fails += 1
        raise {0: IOError, 1: TimeoutError, 2: ConnectionResetError}[self.fails % 3](what)

    def open(self):
        f = self.next()
        if f in ("err", "late"):
            self.fail("open")
        self.opened += 1
        return Handle(self)


class Handle:
    def __init__(self, low):
        self.low = low
        self.pos = 0
        self.dead = False

    def read(self, n=-1):
        assert not self.dead, "read of a closed handle"
        low = self.low
        f = low.next()
        size = len(low.data)
        want = size - self.pos if n is None or n < 0 else max(min(n, size - self.pos), 0)
        k = want
        if f == "one":
            k = min(want, 1)
        elif f == "short":
            k = (want + 1) // 2
        elif f == "eof":
            k = 0
            if want:
                low.fails += 1
        elif f == "err":
            low.fail("read")
        elif f == "late":
            self.pos += want
            low.fail("read")
        res = low.data[self.pos : self.pos + k]
        self.pos += k
        return res

    def seek(self, o, whence=0):
        assert not self.dead and whence == 0
        f = self.low.next()
        if f == "err":
            self.low.fail("seek")
        if f == "late":
            self.pos = o
            self.low.fail("seek")
        self.pos = o
        return o

    def tell(self):
        return self.pos

    def close(self):
        self.dead = True
        self.low.closed += 1
        if self.low.next() in ("late",):
            raise IOError("close")


def run(name, size, base, ops, script):
    data = bytes(base + k + 1 for k in range(size))
    low = Low(data, script)

    class P:
        """Path of the file; only what the stream may rely on."""

        def open(self, mode="r", block_size=None):
            assert mode == "rb"
            return low.open()

        def size(self):
            return size

    ev = []
    s = RetryReadStream(P())
    low.on = True
    for op in ops:
        if op["o"] == "r":
            low.fails = 0
            try:
                v, err = list(s.read(op["n"])), False
            except IOError:
                v, err = [], True
            ev.append({"e": "r", "n": op["n"], "v": v, "err": err, "fails": low.fails, "tell": s.tell()})
        else:
            ret = s.seek(op["n"], op.get("wh", 0))
            ev.append({"e": "s", "n": op["n"], "wh": op.get("wh", 0), "ret": ret, "tell": s.tell()})
    low.on = False
    s.close()
    return {"name": name, "size": size, "base": base, "ev": ev}


def replay(part):
    return [run(f"h{k}", 3, 0, h["ops"], h["faults"]) for k, h in part]


def random_part(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p19/{k}")
        size = rng.choice([0, 1, 5, 40, 200])
        base = rng.randint(0, 50) if size < 200 else 0
        ops = []
        for _ in range(rng.randint(1, 8)):
            if rng.random() < 0.7:
                ops.append({"o": "r", "n": rng.choice([-1, 0, 1, 2, 7, 30, 250])})
            else:
                ops.append({"o": "s", "n": rng.choice([0, 1, -3, 3, 20, 300]), "wh": rng.randint(0, 2)})
        script = []
        while len(script) < 30:
            f = rng.choice(["ok", "ok", "one", "short", "eof", "err", "late"])
            script += [f] * (rng.choice([1, 1, 2, 7, 8, 9, 10, 11, 12]) if f != "ok" else 1)
        out.append(run(f"r{k}", size, base, ops, script))
    return out


def real_part(a):
    """The same with a real file behind a real path, only EPath.open is unreliable."""
    seed, lo, hi = a
    import tempfile, os, shutil

    out = []
    d = tempfile.mkdtemp(prefix="verif_p19_")
    orig = EPath.open
    try:
        for k in range(lo, hi):
            rng = random.Random(f"{seed}/p19real/{k}")
            size, base = rng.choice([(9, 0), (100, 100)])
            p = os.path.join(d, f"f{k}")
            with open(p, "wb") as f:
                f.write(bytes(base + j + 1 for j in range(size)))
            low = Low(open(p, "rb").read(), [rng.choice(["ok", "ok", "short", "eof", "err", "late"]) for _ in range(12)])
            EPath.open = lambda self, mode="r", block_size=None: low.open()
            ev = []
            with RetryReadStream(EPath(p)) as s:
                low.on = True
                for _ in range(6):
                    n = rng.choice([-1, 1, 4, 50])
                    low.fails = 0
                    try:
                        v, err = list(s.read(n)), False
                    except IOError:
                        v, err = [], True
                    ev.append({"e": "r", "n": n, "v": v, "err": err, "fails": low.fails, "tell": s.tell()})
                    if rng.random() < 0.5:
                        o = rng.randint(0, size)
                        ev.append({"e": "s", "n": o, "wh": 0, "ret": s.seek(o), "tell": s.tell()})
                low.on = False
            out.append({"name": f"real{k}", "size": size, "base": base, "ev": ev})
    finally:
        EPath.open = orig
        shutil.rmtree(d, ignore_errors=True)
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = f"SPECIFICATION Spec\nCONSTANTS Size = {5 if T else 3}\nLimit = 3\nMaxOps = {4 if T else 3}\nMaxFaults = {6 if T else 5}\nINVARIANTS Exact Aligned\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
    c.add_model("RetryStream", check_model("RetryStream", cfg))
    out = scratch("p19.json")
    r = run_tlc(
        "RetryStreamGen",
        f"SPECIFICATION Spec\nCONSTANTS Size = 3\nNOps = 3\nNFaults = {5 if T else 4}\nCHECK_DEADLOCK FALSE\n",
        env={"OUT": out},
    )
    hist = [json.loads(x) for x in open(out)]
    if not hist:
        raise vlib.MachineryError(r.out[-2000:])
    c.extra["enumerated_histories"] = len(hist)
    if not T:
        c.rng.shuffle(hist)
        hist = hist[:40000]
    parts = [list(enumerate(hist))[k :: 8 * 4] for k in range(8 * 4)]
    traces = [t for p in collect(c, replay, parts, what="histories") for t in p]
    n = 40000 if T else 6000
    traces += [t for p in collect(c, random_part, [(vlib.SEED, k, k + 200) for k in range(0, n, 200)], what="random") for t in p]
    traces += [t for p in collect(c, real_part, [(vlib.SEED, k, k + 20) for k in range(0, 200, 20)], what="real files") for t in p]
    for t in traces[:: len(traces) // 4]:
        c.sample(t)
    c.run_traces("RetryStreamTrace", traces, chunk=60000)
    return c.finish()
