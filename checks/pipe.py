"""P10-P15: the wrappers. Pipelines around the wrappers of one family run in the real loader;
Wrappers.tla judges what crosses every edge, Resume.tla the delivered streams under save/restore."""

import contextlib
import io
import random

import vlib
from vlib import Check, MachineryError, collect
from engine import Gen, Hang, node_trace, resume_trace
from vloader import Eager, Lazy, Random

FAMILY = {
    "P10": ("blend", "mix", "concat"),
    "P11": ("shuffle",),
    "P12": ("batch", "group"),
    "P13": ("pack",),
    "P14": ("epochize", "limit", "repeat"),
    "P15": ("map", "itermap", "filter", "batch", "group", "pack"),
}
WHAT = {
    "P10": "blend", "P11": "shuffle", "P12": "batch", "P13": "pack", "P14": "epoch", "P15": "error",
}  # fmt: skip


def job(a):
    with contextlib.redirect_stdout(io.StringIO()):
        return _job(a)


def _job(a):
    prop, seed, lo, hi = a
    fam = FAMILY[prop]
    node, res = [], []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/{prop}/{k}")
        n = rng.choice([0, 0, 0, 1, 2, 2, 3])
        # some pipelines which cannot be saved, with repeated samples and epochs anywhere
        savable = rng.random() < 0.85
        g = Gen(rng, fam, n, depth=rng.choice([1, 2, 2, 3]), savable=savable)
        g.failures = 0.7 if prop == "P15" else 0.35
        nodes = g.build()
        s = rng.randrange(10**6)
        sched = rng.choice([Lazy, Lazy, Eager, lambda: Random(random.Random(s))])
        # one of the ranks
        world = rng.choice([1, 1, 2, 3])
        rk = dict(rank=rng.randrange(world), world=world)
        try:
            node += node_trace(nodes, n, rng, f"{prop}/{k}/n{n}", **rk, restores=savable, sched=sched() if n else None)
            if savable:
                t = resume_trace(nodes, n, rng, f"{prop}/{k}/n{n}", WHAT[prop], sched=sched, ck=rng.choice([0, 0, 2 * n + rng.randint(0, 3)]), **rk)
                if t is not None:
                    res.append(t)
        except Hang:
            # an epoch over a source that has nothing to yield never ends
            pass
    return node, res


def small_job(a):
    """Exhaustively enumerated configurations (by TLC) run on the real code."""
    prop, cfgs = a
    out = []
    for k, nodes in cfgs:
        rng = random.Random(k)
        try:
            out += node_trace(nodes, 0, rng, f"{prop}/mc{k}", tokens=10, restores=False)
            out += node_trace(nodes, 0, rng, f"{prop}/mcr{k}", tokens=8, restores=True)
        except Hang:
            pass
    return out


def mc_nodes(c):
    nodes = []
    for n in c["nodes"]:
        n = {k: v for k, v in n.items()}
        nodes.append(n)
    return nodes


def check(prop):
    c = Check(prop)
    N = 12000 if vlib.THOROUGH else 1100
    step = 20
    got = collect(
        c, job, [(prop, vlib.SEED, lo, min(lo + step, N)) for lo in range(0, N, step)], what="pipelines"
    )
    node = [t for a, _ in got for t in a]
    res = [t for _, b in got for t in b]
    for t in node[:2]:
        c.sample({"nodes": t["nodes"][-1]["t"], "events": t["ev"][:12]})
    for t in res[:2]:
        c.sample({"pipeline": [n["t"] for n in t["nodes"]], "workers": t["n"], "history": t["ev"][:12]})
    c.run_traces("WrappersTrace", node, name="edges", chunk=6000)
    c.run_traces("Resume", res, name="streams", chunk=6000)
    c.extra["pipelines"] = N
    import pipe_extra

    pipe_extra.run(prop, c)
    return c.finish()
