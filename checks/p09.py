"""P09: a restore key reproduces its sample.

Keys of samples delivered by one loader are resolved in other loaders of the configuration: new
ones, running ones, restored ones, in any order, repeatedly, in other processes, while other random
numbers are drawn. Loaders.tla judges that every key gives its sample and no stream is disturbed."""

import copy
import json
import os
import pickle
import random
import subprocess
import sys

import vlib
from vlib import Check, check_model, collect
from engine import Gen, Hang, Log, Run, entry, finite
from full import Full, FullRun, full_entry
from p04 import ALL, ev, noise, trace
from p05 import templates
from vloader import Eager, Lazy, Random
from wload import quiet, tmpdir


def positions(ref):
    """Positions of the stream which hold the j-th sample."""
    return [p for p, t in enumerate(ref, 1) if t not in ("E", "X")]


def history(mk, ent, rng, name, n, fin, *, tokens=16, ops=12, every=False, **info):
    r = mk()
    toks = r.pull(tokens + 8)
    samples = list(r.samples)
    r.close()
    if not r.ds.can_restore_sample():
        return None
    ref = [ent(t) for t in toks]
    pos_of = positions(toks)
    # keys survive being written to disk
    if rng.random() < 0.5:
        samples = pickle.loads(pickle.dumps(samples))
    evs, live, left = [], {}, {}
    nl = 0

    def new(state=None, at=0):
        nonlocal nl
        nl += 1
        live[nl] = mk()
        left[nl] = tokens - at
        return nl

    def deliver(l, k):
        k = min(k, left[l])
        if k > 0 and not live[l].dead:
            left[l] -= k
            evs.extend(ev("d", l, 0, t["w"], t["v"]) for t in map(ent, live[l].pull(k)))

    def resolve(l, j):
        if j < len(samples):
            if rng.random() < 0.2:
                noise(rng)
            got = live[l].restore_sample(samples[j])
            evs.append(ev("g", l, pos_of[j], 0, ent(got)["v"]))

    l = new()
    evs.append(ev("N", l))
    if every:
        # every key, in a new loader and in one which is at another place
        order = list(range(len(samples)))
        for j in order:
            resolve(1, j)
        deliver(1, tokens // 2)
        rng.shuffle(order)
        for j in order:
            resolve(1, j)
        deliver(1, 3)
    for _ in range(0 if every else ops):
        op = rng.choice("ddgggggNR")
        l = rng.choice(list(live))
        if op == "d":
            deliver(l, rng.randint(1, 5))
        elif op == "g" and samples:
            # neighbours, the same one again, or anything
            j = rng.randrange(len(samples))
            for x in rng.choice(([j], [j, j], [j + 1, j], [j, max(j - 1, 0), j])):
                resolve(l, x)
        elif op == "N" and len(live) < 3:
            evs.append(ev("N", new()))
        elif op == "R" and not live[l].dead and left[l] > 0 and len(live) < 4:
            at = tokens - left[l]
            st = live[l].save()
            evs.append(ev("s", l, nl + 1))
            x = new(at=at)
            live[x].restore(st)
            evs.append(ev("R", x, x))
            if rng.random() < 0.5 and samples:
                resolve(x, rng.randrange(len(samples)))
    for l in live:
        deliver(l, 3)
        live[l].close()
    return trace(name, "restore", n, ref, evs, fin, **info)


def full_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p09/full/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            s = rng.randrange(10**6)
            sched = rng.choice([Lazy, Eager, lambda: Random(random.Random(s))])
            t = history(lambda: FullRun(cfg, sched=sched()), full_entry, rng, f"full{k}", cfg.n, cfg.fin, every=k % 3 == 0, cfg=cfg.describe())
            out.append(t)
    return out


def mk_wrap(nodes, n, **kw):
    def mk():
        log = Log()
        log.on = False
        log.limit = 2500
        return Run(nodes, n, log=log, probes=False, **kw)

    return mk


def wrap_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p09/wrap/{k}")
        n = rng.choice([0, 0, 1, 2, 3])
        nodes = Gen(rng, tuple(x for x in ALL if x != "mix"), n, depth=rng.choice([1, 2, 3, 4])).build()
        world = rng.choice([1, 1, 2])
        try:
            with quiet():
                mk = mk_wrap(nodes, n, rank=rng.randrange(world), world=world)
                t = history(mk, lambda t: entry(nodes, t), rng, f"wrap{k}", n, finite(nodes, len(nodes)), every=k % 2 == 0, nodes=nodes)
        except Hang:
            continue
        except RuntimeError as e:
            if "Pre packer did not yield" not in str(e):
                raise
            continue
        out.append(t)
    return out


def template_job(a):
    name, nodes, n = a
    rng = random.Random(f"{name}/{n}")
    try:
        with quiet():
            t = history(mk_wrap(nodes, n), lambda t: entry(nodes, t), rng, f"every/{name}/n{n}", n, finite(nodes, len(nodes)), tokens=24, every=True, nodes=nodes)
    except Hang:
        return []
    if t is None and name[:3] != "mix":
        return [dict(unsupported=name)]
    return [t]


def child(seed, lo, hi):
    """Resolve pickled keys given on stdin."""
    work = pickle.load(sys.stdin.buffer)
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p09/proc/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            r = FullRun(cfg)
            res = []
            for j, s in work[k - lo]:
                res.append((j, full_entry(r.restore_sample(s))["v"]))
            out.append(res)
    return out


def proc_job(a):
    """In another process, with another hash seed and another directory."""
    seed, lo, hi = a
    todo, infos = [], []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p09/proc/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            r = FullRun(cfg)
            toks = r.pull(14)
            r.close()
            pos = positions(toks)
            todo.append([(pos[j], s) for j, s in enumerate(r.samples)] if r.ds.can_restore_sample() else [])
            infos.append((cfg, [full_entry(t) for t in toks]))
    env = dict(os.environ, PYTHONHASHSEED=str(lo + 1))
    p = subprocess.run(
        [sys.executable, "-c", f"import sys; sys.path[:0] = {sys.path!r}; import vlib; vlib.import_energon(); import p09, pickle, os; f = os.fdopen(os.dup(1), 'wb'); r = p09.child({seed!r}, {lo}, {hi}); f.write(pickle.dumps(r)); f.flush()"],
        input=pickle.dumps(todo), capture_output=True, env=env,
    )  # fmt: skip
    if p.returncode:
        raise vlib.child_error(p.stderr.decode())
    res = pickle.loads(p.stdout)
    out = []
    for k, ((cfg, ref), r) in enumerate(zip(infos, res)):
        evs = [ev("N", 1)] + [ev("g", 1, j, 0, v) for j, v in r]
        out.append(trace(f"proc{lo + k}", "restore", cfg.n, ref, evs, cfg.fin, cfg=cfg.describe()))
    return out


def more_templates(n):
    """Iterators which yield several samples, fail or skip samples (only without saved states)."""
    W = max(n, 1)
    A = dict(t="leaf", name="A", items=[list(range(5 * w, 5 * w + 5)) for w in range(W)])
    rep = [1, 2, 5, 7]
    yield "itermap-rep", [A, dict(t="itermap", c=[1], rep=rep)]
    yield "itermap-drop", [A, dict(t="itermap", c=[1], rep=rep, drop=[0, 3, 6])]
    yield "itermap-fail", [A, dict(t="itermap", c=[1], fail=[1, 2, 6])]
    yield "itermap-mid", [A, dict(t="itermap", c=[1], rep=rep, failmid=[1, 5], fail=[3], drop=[2])]
    yield "itermap-map", [A, dict(t="map", c=[1], gen=2), dict(t="itermap", c=[2], rep=rep, failmid=[2], fail=[3]), dict(t="batch", c=[3], n=2)]
    yield "itermap-repeat", [A, dict(t="repeat", c=[1], n=0), dict(t="itermap", c=[2], rep=rep, failmid=[2], fail=[3]), dict(t="shuffle", c=[3], n=2)]


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    jobs = [(name, nodes, n) for n in ((0, 1, 2, 3) if T else (0, 2)) for f in (templates, more_templates) for name, nodes in f(n)]
    res = [t for p in collect(c, template_job, jobs, what="every") for t in p]
    N = 6000 if T else 330
    res += [t for p in collect(c, full_job, [(vlib.SEED, k, k + 5) for k in range(0, N, 5)], what="full") for t in p]
    N = 16000 if T else 700
    res += [t for p in collect(c, wrap_job, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="pipelines") for t in p]
    N = 300 if T else 32
    res += [t for p in collect(c, proc_job, [(vlib.SEED, k, k + 4) for k in range(0, N, 4)], what="processes") for t in p]
    traces = [t for t in res if t is not None and "unsupported" not in t]
    un = sum(t is None for t in res)
    c.extra["not_restorable"] = un
    for t in res:
        if t is not None and "unsupported" in t:
            c.violation(f"wrapper {t['unsupported']} no longer supports restore keys", t)
    if un > 0.4 * len(res):
        c.violation("most pipelines do not support restore keys any more", {})
    for t in traces[:: max(len(traces) // 5, 1)]:
        c.sample(dict(name=t["name"], pipeline=t.get("cfg") or [n["t"] for n in t.get("nodes", [])], ev=[(e["e"], e["l"], e["k"], e["w"]) for e in t["ev"][:16]]))
    c.run_traces("Loaders", traces, chunk=3000)
    c.extra["resolved"] = sum(e["e"] == "g" for t in traces for e in t["ev"])
    return c.finish()
