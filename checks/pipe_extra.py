"""What is decided by counting: the frequencies of random choices (P10, P11) and reported lengths (P14), judged by
Chance.tla."""

import random

import vlib
from engine import Gen, Hang, Log, Run, entry, finite
from full import Full, FullRun
from vlib import collect
from vloader import Lazy
from wload import quiet, tmpdir


def start(nodes, n, limit=10**7, **kw):
    log = Log()
    log.on = False
    log.limit = limit
    return Run(nodes, n, log=log, probes=False, sched=Lazy(), **kw)


def chance_job(a):
    prop, seed, k = a
    rng = random.Random(f"{seed}/{prop}/chance/{k}")
    n = rng.choice([0, 0, 1, 2])
    W = max(n, 1)
    N = 3000
    out = []
    kw = dict(seed_offset=rng.randrange(5), world=2, rank=rng.randrange(2))
    with quiet():
        if prop == "P10":
            wt = [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.randint(2, 4))]
            if sum(x > 0 for x in wt) < 2:
                wt[:2] = [1, 2]
            f = rng.choice([1, 0.25, 0.1, 100])
            nodes, i = [], 0
            for j in range(len(wt)):
                items = []
                for w in range(W):
                    c = rng.randint(1, 5) if wt[j] else rng.randint(0, 5)
                    if j >= 2 and rng.random() < 0.2:
                        c = 0
                    items.append(list(range(i, i + c)))
                    i += c
                nodes.append(dict(t="leaf", name=f"L{j}", items=items))
            own = {x: j + 1 for j, nd in enumerate(nodes) for it in nd["items"] for x in it}
            c, w = list(range(1, len(wt) + 1)), [x * f for x in wt]
            if rng.random() < 0.3:
                nodes.append(dict(t="mix", c=c, w=w, n=rng.randint(1, 3), gen=0))
            else:
                nodes.append(dict(t="blend", c=c, w=w))
            r = start(nodes, n, **kw)
            got = [[] for _ in range(W)]
            for e in (entry(nodes, t) for t in r.pull(N * W)):
                got[e["w"]] += [own[x] for x in e["v"][: e["v"].index(-99)] if x >= 0]
            for x in range(W):
                have = [v if nodes[j]["items"][x] else 0 for j, v in enumerate(wt)]
                out.append(dict(name=f"chance{k} n={n} worker {x} {have}", what="blend", wt=have, v=got[x][: len(got[x]) // 2 * 2]))
        else:
            size, m = rng.randint(1, 5), rng.randint(1, 9)
            nodes = [dict(t="leaf", name="L", items=[list(range(100 * w + 1, 100 * w + m + 1)) for w in range(W)]), dict(t="shuffle", c=[1], n=size)]
            r = start(nodes, n, **kw)
            got = [[] for _ in range(W)]
            for e in (entry(nodes, t) for t in r.pull((N // m) * (m * W + 1))):
                if e["w"] >= 0:
                    got[e["w"]].append(e["v"][0] % 100)
            for x in range(W):
                out.append(dict(name=f"chance{k} n={n} worker {x}", what="shuffle", size=size, m=m, v=got[x]))
    r.close()
    return out


def length_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/P14/length/{k}")
        n = rng.choice([0, 0, 1, 2, 3])
        if k % 2:
            # how the samples of every source are spread over several workers is up to the library
            with tmpdir() as d, quiet():
                cfg = Full(rng, d, n=n, train=False, errors=False, exclude=False)
                cfg.kw["packing_buffer_size"] = cfg.o["pack"] = None
                cfg.o.update(group=0, encode=None, encb=None, batcher="default")
                if cfg.blend > 1 and cfg.kw["batch_size"]:
                    # every source ends on its own
                    cfg.kw["batch_size"] = cfg.o["batch"] = None
                r = FullRun(cfg)
                name, nodes = f"length{k} {cfg.describe()}", None
                passes, ln = passes_of(r), len(r.loader)
        else:
            if n > 1:
                n = 1
            while True:
                nodes = Gen(rng, ("limit", "repeat", "epochize", "shuffle", "batch", "concat", "map"), n, depth=rng.choice([1, 2, 3]), errors=False, savable=False).build()
                if not any(x.get("gen") or x["t"] in ("blend", "mix", "filter") or (x["t"] == "repeat" and not x["n"]) for x in nodes):
                    break
            # an epoch of a source which yields less continues with it from the start: only at the root
            if any(x["t"] == "epochize" for x in nodes[:-1]) or not finite(nodes, len(nodes)):
                continue
            name = f"length{k} n={n} {[(x['t'], x.get('n'), [len(i) for i in x.get('items', [])]) for x in nodes]}"
            try:
                with quiet():
                    r = start(nodes, n, 3000)
                    passes, ln = passes_of(r), len(r.loader)
            except Hang:
                continue
        r.close()
        out.append(dict(name=name, what="length", len=ln, v=passes))
    return out


def passes_of(r):
    passes = []
    for _ in range(2):
        c = 0
        while c < 2000:
            if r.pull(1) == ["E"]:
                break
            c += 1
        passes.append(c)
    return passes


def run(prop, c):
    T = vlib.THOROUGH
    if prop in ("P10", "P11"):
        tr = [t for x in collect(c, chance_job, [(prop, vlib.SEED, k) for k in range(160 if T else 24)], what="chance") for t in x]
    elif prop == "P14":
        N = 4000 if T else 400
        tr = [t for x in collect(c, length_job, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="length") for t in x]
    else:
        return
    c.run_traces("Chance", tr)
    c.extra["choices and lengths"] = sum(len(t["v"]) for t in tr)
