"""P05: a restored loader continues exactly where the state was saved.

(a) the streams of complete pipelines over datasets on disk and of random wrapper pipelines, under
    random save/restore histories, judged by Resume.tla;
(b) a fixed set of pipelines around every wrapper, saved at every position (and again shortly after
    the restore), with 0-2 workers;
(c) the recorded findings, judged strictly;
(d) the protocol model (LoaderProtocol.tla), all interleavings."""

import random

import vlib
from vlib import Check, check_model, collect
from engine import Gen, Hang, Log, Run, entry, finite, resume_trace, stream_trace, wconf
from full import Full, FullRun, full_entry
from vloader import Eager, Lazy, Random
from wload import quiet, tmpdir

ALL = ("blend", "mix", "concat", "shuffle", "batch", "group", "pack", "epochize", "limit", "repeat", "map", "itermap", "filter")


def scheds(rng):
    s = rng.randrange(10**6)
    return rng.choice([Lazy, Lazy, Eager, lambda: Random(random.Random(s))])


def full_job(a):
    tag, what, seed, lo, hi, keys = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/{tag}/full/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            sched = scheds(rng)
            ck = rng.choice([0, 0, 2 * cfg.n + rng.randint(0, 3)])
            try:
                t = stream_trace(
                    lambda: FullRun(cfg, sched=sched(), ck=ck), full_entry, rng, f"full{k}", what, cfg.n,
                    tokens=rng.choice([10, 16, 24]), keys=keys, fin=cfg.fin, cfg=cfg.describe(),
                )  # fmt: skip
            except Exception as e:
                e.args = (f"{e.args} in {cfg.describe()}",)
                raise
            out.append(t)
    return out


def wrap_job(a):
    tag, what, seed, lo, hi, keys = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/{tag}/wrap/{k}")
        n = rng.choice([0, 0, 1, 2, 2, 3])
        nodes = Gen(rng, ALL, n, depth=rng.choice([1, 2, 3])).build()
        world = rng.choice([1, 1, 2, 3])
        try:
            with quiet():
                t = resume_trace(
                    nodes, n, rng, f"wrap{k}", what, sched=scheds(rng), ck=rng.choice([0, 0, 2 * n + rng.randint(0, 3)]),
                    rank=rng.randrange(world), world=world, keys=keys, tokens=rng.choice([10, 16, 24]),
                )  # fmt: skip
        except Hang:
            continue
        if t is not None:
            out.append(t)
    return out


def templates(n):
    """One or more pipelines per wrapper; every worker has samples."""
    W = max(n, 1)

    def leaf(name, lens, base):
        items, x = [], base
        for w in range(W):
            c = lens[w % len(lens)]
            items.append(list(range(x, x + c)))
            x += c
        return dict(t="leaf", name=name, items=items)

    A, B = leaf("A", (3, 4), 0), leaf("B", (2, 3), 100)
    a4 = leaf("A", (4, 4), 0)
    one = leaf("A", (1, 2), 0)
    yield "leaf", [A]
    for m in (0, 1, 2):
        yield f"repeat{m}", [A, dict(t="repeat", c=[1], n=m)]
    yield "concat", [A, B, dict(t="concat", c=[1, 2])]
    yield "blend", [A, B, dict(t="blend", c=[1, 2], w=[1, 2])]
    yield "mix", [A, B, dict(t="mix", c=[1, 2], w=[1, 1], n=2)]
    for m in (1, 2, 3, 6):
        yield f"shuffle{m}", [A, dict(t="shuffle", c=[1], n=m)]
    yield "shuffle-repeat", [A, dict(t="repeat", c=[1], n=0), dict(t="shuffle", c=[2], n=3)]
    for m in (1, 2, 5):
        yield f"epochize{m}", [A, dict(t="epochize", c=[1], n=m * W)]
        yield f"epochize-repeat{m}", [A, dict(t="repeat", c=[1], n=0), dict(t="epochize", c=[2], n=m * W)]
        yield f"limit{m}", [A, dict(t="limit", c=[1], n=m * W)]
        yield f"limit-reset{m}", [A, dict(t="limit", c=[1], n=m * W, reset=True)]
    yield "filter", [a4, dict(t="filter", c=[1], drop=[1])]
    yield "map", [A, dict(t="map", c=[1])]
    for m in (1, 2, 3):
        yield f"map-gen{m}", [A, dict(t="map", c=[1], gen=m, skipmid=[1], failmid=[2])]
    yield "itermap", [A, dict(t="itermap", c=[1], drop=[1])]
    for m in (1, 2, 3, 5):
        for dl in (False, True):
            yield f"batch{m}{dl}", [A, dict(t="batch", c=[1], n=m, dl=dl)]
    yield "batch-gen", [A, dict(t="batch", c=[1], n=2, gen=2)]
    yield "group", [leaf("A", (6, 5), 0), dict(t="group", c=[1], n=2, mod=2)]
    yield "group-sizes", [leaf("A", (6, 5), 0), dict(t="group", c=[1], n=0, mod=2, sizes=[1, 3])]
    yield "pack", [leaf("A", (6, 5), 0), dict(t="pack", c=[1], n=4, k=2)]
    yield "pack-gen", [leaf("A", (6, 5), 0), dict(t="pack", c=[1], n=3, k=2, gen=2)]
    yield "pack-rev", [leaf("A", (6, 5), 0), dict(t="pack", c=[1], n=5, k=2, rev=True)]
    yield "all", [
        A, dict(t="repeat", c=[1], n=0), B, dict(t="repeat", c=[3], n=0), dict(t="blend", c=[2, 4], w=[1, 1]), dict(t="shuffle", c=[5], n=3),
        dict(t="map", c=[6], gen=2), dict(t="pack", c=[7], n=3, k=2), dict(t="batch", c=[8], n=2), dict(t="epochize", c=[9], n=3 * W),
    ]  # fmt: skip
    yield "concat-limit-shuffle", [A, B, dict(t="concat", c=[1, 2]), dict(t="shuffle", c=[3], n=2), dict(t="limit", c=[4], n=4 * W)]
    yield "one-shuffle-pack", [one, dict(t="repeat", c=[1], n=0), dict(t="shuffle", c=[2], n=2), dict(t="pack", c=[3], n=3, k=2, gen=2)]


def every_job(a):
    """Save at every position, restore, continue; save again and restore again."""
    what, name, nodes, n, tokens, ck, mk = a

    def run():
        log = Log()
        log.on = False
        log.limit = 4000
        return Run(nodes, n, log=log, probes=False, sched=(mk or Lazy)(), ck=ck)

    try:
        r = run()
        ref = r.pull(tokens + 12)
        r.close()
        ev = []
        ent = lambda t: entry(nodes, t)
        add = lambda ts: ev.extend({"e": "d", "k": 0, **ent(t)} for t in ts)
        mark = lambda e, k: ev.append({"e": e, "k": k, "w": 0, "v": []})
        slot = 0
        for p in range(tokens):
            r = run()
            mark("N", 0)
            add(r.pull(p))
            slot += 1
            st = r.save()
            mark("s", slot)
            # saving does not disturb
            add(r.pull(2))
            r.close()
            for q in (0, 1, 3):
                r = run()
                r.restore(st)
                mark("R", slot)
                add(r.pull(q))
                st2 = r.save()
                mark("s", 0 - slot)
                add(r.pull(4 - q))
                r.close()
                r = run()
                r.restore(st2)
                mark("R", 0 - slot)
                add(r.pull(4))
                r.close()
    except Hang:
        return []
    return [dict(name=f"every/{name}/n{n}", what=what, W=max(n, 1), all=False, fin=finite(nodes, len(nodes)), n=n, ref=[ent(t) for t in ref], ev=ev, nodes=nodes)]


def strict_traces(what):
    """The recorded findings: the same histories, without any allowance."""
    out = []
    # (i) the epoch of worker 1 ends before that of worker 0
    nodes = [dict(t="leaf", name="A", items=[[0, 1, 2, 3], [10, 11]])]
    # (ii) a state whose next worker is not the first one
    nodes2 = [dict(t="leaf", name="A", items=[[0, 1, 2], [10, 11, 12]]), dict(t="repeat", c=[1], n=0), dict(t="epochize", c=[2], n=4)]
    for key, nd, p, more in (("epoch-tail", nodes, 5, 6), ("rotated-epochs", nodes2, 1, 10)):

        def run():
            log = Log()
            log.on = False
            return Run(nd, 2, log=log, probes=False)

        ref = run().pull(24)
        ev = []
        r = run()
        add = lambda ts: ev.extend({"e": "d", "k": 0, **entry(nd, t)} for t in ts)
        add(r.pull(p))
        st = r.save()
        ev.append({"e": "s", "k": 1, "w": 0, "v": []})
        r.close()
        r = run()
        r.restore(st)
        ev.append({"e": "R", "k": 1, "w": 0, "v": []})
        add(r.pull(more))
        r.close()
        out.append(dict(name=key, key=key, what=what, W=2, all=True, fin=True, n=2, ref=[entry(nd, t) for t in ref], ev=ev, nodes=nd))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    what = "resume"
    cfg = "SPECIFICATION Spec\nCONSTANTS N = {}\nLens <- {}\nCkMin = {}\nNCk = 2\nMaxDeliver = {}\nMaxSaves = {}\nINVARIANTS NoError NoDeadlock Ahead\nCHECK_DEADLOCK FALSE\n"
    c.add_model("LoaderProtocol", check_model("LoaderProtocol", cfg.format(2, "LensV", 4, 9 if T else 6, 2 if T else 1)))
    traces = strict_traces(what)
    N = 6000 if T else 450
    traces += [t for p in collect(c, full_job, [(prop, what, vlib.SEED, k, k + 5, False) for k in range(0, N, 5)], what="full", timeout=120) for t in p]
    N = 12000 if T else 700
    traces += [t for p in collect(c, wrap_job, [(prop, what, vlib.SEED, k, k + 10, False) for k in range(0, N, 10)], what="pipelines", timeout=120) for t in p]
    jobs = []
    for n in (0, 1, 2, 3) if T else (0, 2):
        for name, nodes in templates(n):
            for ck, mk in ((0, Lazy), (2 * n, Eager)) if n and T else ((0, Lazy),) if n != 2 else ((2 * n, Eager),):
                jobs.append((what, name, nodes, n, 20 if T else 10, ck, mk))
    traces += [t for p in collect(c, every_job, jobs, what="every", timeout=120) for t in p]
    c.extra["positions"] = "every position of the streams of %d pipelines" % len(jobs)
    for t in traces[:: max(len(traces) // 5, 1)]:
        c.sample(dict(name=t["name"], pipeline=t.get("cfg") or [n["t"] for n in t["nodes"]], workers=t["n"], ev=t["ev"][:10]))
    c.run_traces("Resume", traces, chunk=3000)
    return c.finish()
