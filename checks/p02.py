"""P02: the data layout depends on the number of global workers only.

The same configuration is read with every factorisation of its number of global workers into ranks
and workers, by all ranks; LayoutTrace.tla judges that every global worker delivers the same stream
in all of them and that the ranks take their workers in turn, which Layout.tla shows to give the
same global batches."""

import random
import zlib

import vlib
from vlib import Check, check_model, collect
from engine import Hang
from full import Full, FullRun, canon, full_entry, keys_of
from vloader import Eager, Lazy, Random
from wload import quiet, tmpdir


def data(x):
    """Everything but random draws and the rank's own sample numbers."""
    if isinstance(x, tuple) and x[:1] == ("FSample",):
        return tuple(data(f) for f in x if f[:1] != ("aug",))
    if isinstance(x, tuple) and x[:1] == ("D",):
        return tuple(data(f) for f in x if f[:1] not in (("r",), ("i",)))
    if isinstance(x, tuple) and x[:2] == ("L", "W"):
        # key of the loader: without the number of the worker (0 in the process itself)
        return ("W",) + tuple(data(f) for f in x[3:])
    return tuple(data(f) for f in x) if isinstance(x, tuple) else x


class DataRun(FullRun):
    def shape(self, s):
        w, _ = super().shape(s)
        return (w, tuple(keys_of(s)) + (-5, zlib.crc32(repr(data(canon(s))).encode()) & 0x7FFFFFFF))


def ev(e, w=0, v=()):
    return dict(e=e, w=w, v=list(v))


def layouts(G):
    """(ranks, workers), one worker in the process itself included."""
    res = []
    for n in range(1, G + 1):
        if G % n == 0:
            res.append((G // n, n))
    return res + [(G, 0)]


def job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p02/{k}")
        G = rng.choice([1, 2, 3, 4, 4, 6, 6, 8])
        with tmpdir() as d, quiet():
            cfg = Full(rng, d, n=1, world=G, rank=0)
            # the epochs are divided over the workers of each rank
            ve = cfg.kw.get("virtual_epoch_length", 0)
            if not cfg.train:
                cfg.kw["limit"] = None
            strict = cfg.train and not ve
            per = rng.choice([6, 9, 12])
            s = rng.randrange(10**6)

            def read(R, n, r, per):
                if ve:
                    cfg.kw["virtual_epoch_length"] = ve * max(n, 1)
                run = DataRun(cfg, n=n, rank=r, world=R, sched=rng.choice([Lazy, Eager, lambda: Random(random.Random(s))])(), ck=rng.choice([0, 2 * n]))
                toks = [full_entry(t) for t in run.pull(per * max(n, 1))]
                run.close()
                return toks

            ref = [[t["v"] for t in read(G, 1, g, per) if t["w"] >= 0] for g in range(G)]
            evs = []
            ls = layouts(G)
            rng.shuffle(ls)
            for R, n in ls[: 3 if G > 4 else 4]:
                evs.append(ev("L", max(n, 1)))
                for r in range(R):
                    evs.append(ev("r", r))
                    evs += [ev("d", t["w"], t["v"]) for t in read(R, n, r, per - 2)]
            out.append(dict(name=f"layout{k}", G=G, strict=strict, ref=ref, evs=evs, cfg=cfg.describe()))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS G = {}\nA = {}\nSteps = {}\nAssign = \"block\"\nINVARIANTS SameSteps NoForeign\nCHECK_DEADLOCK FALSE\n"
    for G, A, S in ((4, 1, 2), (6, 1, 1), (3, 2, 2)) + (((4, 2, 2), (8, 1, 1)) if T else ()):
        c.add_model(f"Layout G={G} A={A}", check_model("Layout", cfg.format(G, A, S)))
    N = 3000 if T else 300
    traces = [t for p in collect(c, job, [(vlib.SEED, k, k + 3) for k in range(0, N, 3)], what="layouts", timeout=200) for t in p]
    for t in traces[:: max(len(traces) // 5, 1)]:
        c.sample(dict(name=t["name"], G=t["G"], pipeline=t["cfg"], layouts=[e["w"] for e in t["evs"] if e["e"] == "L"], stream=t["ref"][0][:6]))
    c.run_traces("LayoutTrace", traces, chunk=1000)
    c.extra["deliveries"] = sum(e["e"] == "d" for t in traces for e in t["evs"])
    return c.finish()
