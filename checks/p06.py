"""P06: a saved state is a snapshot.

Loaders of one configuration are created, saved, continued and restored in random order; the saved
objects themselves (and copies on disk) are used, repeatedly. Loaders.tla judges that every state
keeps its contents and always leads to the same place, and that foreign states are refused."""

import dataclasses
import pickle
import random
import zlib

import numpy as np
import torch

import vlib
from vlib import Check, check_model, collect
from engine import Gen, Hang, Log, Run, entry, finite
from full import Full, FullRun, full_entry
from p04 import ALL, ev, trace
from vloader import Eager, Lazy, Random
from wload import quiet, tmpdir


def plain(x):
    if type(x).__name__ == "ShardInfo":
        # where the slice lies in the shard is looked up when it is first read
        return ("ShardInfo", x.name, x.offset, x.count)
    if isinstance(x, torch.Tensor):
        return ("T", x.tolist())
    if isinstance(x, np.ndarray):
        return ("A", x.tolist())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__,) + tuple((f.name, plain(getattr(x, f.name))) for f in dataclasses.fields(x))
    if isinstance(x, dict):
        return ("D",) + tuple((repr(k), plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(v) for v in x)
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return (type(x).__name__, plain(vars(x)))
    return repr(x)


def contents(state):
    return [zlib.crc32(repr(plain(state)).encode()) & 0x7FFFFFFF]


def slices(x):
    """The sizes of the slices of shards which are in use or still to come."""
    if type(x).__name__ == "ShardInfo":
        return [x.count]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [c for f in dataclasses.fields(x) for c in slices(getattr(x, f.name))]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [c for v in x for c in slices(v)]
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return slices(vars(x))
    return []


def history(mk, others, ent, rng, name, n, fin, *, tokens=18, ops=14, **info):
    """others: loaders of other configurations, given as functions."""
    r = mk()
    ref = [ent(t) for t in r.pull(tokens + 8)]
    r.close()
    evs, live, states, pos, spos = [], {}, {}, {}, {}
    nl = ns = 0

    def deliver(l, k):
        k = min(k, tokens - pos[l])
        if k > 0 and not live[l].dead:
            got = [ent(t) for t in live[l].pull(k)]
            pos[l] += len(got)
            evs.extend(ev("d", l, 0, t["w"], t["v"]) for t in got)

    def new():
        nonlocal nl
        nl += 1
        live[nl] = mk()
        pos[nl] = 0
        return nl

    def check_states():
        for k, s in states.items():
            evs.append(ev("h", 0, k, 0, contents(s)))

    def refused(k, r):
        try:
            r.restore(states[k])
        except Exception:
            return 1
        finally:
            r.close()
        return 0

    evs.append(ev("N", new()))
    deliver(1, rng.randint(0, 5))
    for _ in range(ops):
        op = rng.choice("dddssRRRMqq")
        l = rng.choice(list(live))
        if op == "d":
            deliver(l, rng.randint(1, 4))
        elif op == "s" and ns < 4 and not live[l].dead:
            ns += 1
            states[ns] = live[l].loader.save_state_rank()
            spos[ns] = pos[l]
            if states[ns] is None:
                # nothing happened yet, the initial state
                pass
            evs.append(ev("s", l, ns, 0, contents(states[ns])))
            deliver(l, rng.randint(0, 3))
            check_states()
        elif op == "R" and states:
            k = rng.choice(list(states))
            st = states[k]
            if rng.random() < 0.3:
                st = pickle.loads(pickle.dumps(st))
            x = new()
            live[x].restore(st)
            pos[x] = spos[k]
            evs.append(ev("R", x, k))
            check_states()
            deliver(x, rng.randint(0, 5))
            check_states()
        elif op == "M" and states and n and getattr(live[l].loader, "_viter", None) is not None:
            # the workers are running already
            k = rng.choice(list(states))
            try:
                live[l].restore(states[k])
                ok = 0
            except Exception:
                ok = 1
            evs.append(ev("q", l, k, ok))
            deliver(l, 2)
        elif op == "q" and states and others:
            k = rng.choice(list(states))
            if states[k] is not None:
                o = rng.choice(others)(states[k])
                if o is not None:
                    evs.append(ev("q", 0, k, refused(k, o)))
                    check_states()
        for old in list(live)[:-3]:
            live.pop(old).close()
    for l in live:
        deliver(l, 3)
        live[l].close()
    check_states()
    return trace(name, "snapshot", n, ref, evs, fin, **info)


def full_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p06/full/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            s = rng.randrange(10**6)
            sched = rng.choice([Lazy, Eager, lambda: Random(random.Random(s))])
            ck = rng.choice([0, 2 * cfg.n + rng.randint(0, 3)])

            def other_n(m):
                return lambda st: FullRun(cfg, n=m)

            others = [other_n(m) for m in (0, 1, 2, 3) if m != cfg.n]

            def other_kw(st):
                kw = dict(cfg.kw)
                if cfg.train:
                    if (kw["shuffle_buffer_size"] or 0) > 1:
                        kw["shuffle_buffer_size"] = None
                    else:
                        kw["shuffle_buffer_size"] = 4
                    if rng.random() < 0.5:
                        kw["virtual_epoch_length"] = 0 if kw["virtual_epoch_length"] else 5
                else:
                    kw["limit"] = None if kw["limit"] else 3
                old, cfg.kw = cfg.kw, kw
                try:
                    return FullRun(cfg)
                finally:
                    cfg.kw = old

            def other_slices(st):
                """The same samples in the same order, in smaller slices."""
                if max(slices(st), default=0) < 2 or not cfg.train:
                    return None
                old, cfg.kw = cfg.kw, dict(cfg.kw, max_samples_per_sequence=1)
                try:
                    return FullRun(cfg)
                finally:
                    cfg.kw = old

            others += [other_kw, other_slices]
            out.append(
                history(lambda: FullRun(cfg, sched=sched(), ck=ck), others, full_entry, rng, f"full{k}", cfg.n, cfg.fin, cfg=cfg.describe())
            )
    return out


def wrap_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p06/wrap/{k}")
        n = rng.choice([0, 0, 0, 1, 2, 3])
        nodes = Gen(rng, ALL, n, depth=rng.choice([1, 2, 3])).build()

        def mk(nd=nodes, m=n):
            log = Log()
            log.on = False
            log.limit = 2500
            return Run(nd, m, log=log, probes=False)

        wrapped = [
            nodes + [x]
            for x in (
                dict(t="repeat", c=[len(nodes)], n=2), dict(t="shuffle", c=[len(nodes)], n=2), dict(t="limit", c=[len(nodes)], n=5),
                dict(t="batch", c=[len(nodes)], n=2), dict(t="map", c=[len(nodes)]), dict(t="epochize", c=[len(nodes)], n=3),
                dict(t="blend", c=[len(nodes)], w=[1]), dict(t="concat", c=[len(nodes)]), dict(t="filter", c=[len(nodes)], drop=[]),
            )
        ]  # fmt: skip
        others = [lambda st, x=x: mk(x) for x in wrapped]
        others += [lambda st, m=m: mk(nodes, m) for m in (0, 1, 2, 3) if max(m, 1) != max(n, 1)]
        root = nodes[-1]
        if len(nodes) > 1 and len(root["c"]) == 1 and len(nodes[:-1]) == root["c"][0]:
            others.append(lambda st: mk(nodes[:-1]))
        if root["t"] in ("blend", "concat"):
            # another number of datasets
            for ch in (root["c"][:-1], root["c"] + [len(nodes) + 1]):
                if ch:
                    x = dict(root, c=[c if c < len(nodes) else len(nodes) for c in ch])
                    if "w" in x:
                        x["w"] = (x["w"] + [1])[: len(ch)]
                    leaf = [dict(nodes[0])] if len(ch) > len(root["c"]) else []
                    others += [lambda st, x=x, leaf=leaf: mk(nodes[:-1] + leaf + [x])] * 4
        try:
            with quiet():
                out.append(history(mk, others, lambda t: entry(nodes, t), rng, f"wrap{k}", n, finite(nodes, len(nodes)), nodes=nodes))
        except Hang:
            continue
        except RuntimeError as e:
            if "Pre packer did not yield" not in str(e):
                raise
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS Loaders = 2\nBuf = {}\nMaxPos = {}\nMaxStates = 2\nCopyOnSave = TRUE\nCopyOnRestore = TRUE\nINVARIANTS Immutable Faithful\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Snapshot", check_model("Snapshot", cfg.format(2, 6 if T else 4)))
    N = 4000 if T else 280
    traces = [t for p in collect(c, full_job, [(vlib.SEED, k, k + 5) for k in range(0, N, 5)], what="full") for t in p]
    N = 10000 if T else 480
    traces += [t for p in collect(c, wrap_job, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="pipelines") for t in p]
    for t in traces[:: max(len(traces) // 5, 1)]:
        c.sample(dict(name=t["name"], pipeline=t.get("cfg") or [n["t"] for n in t.get("nodes", [])], ev=[(e["e"], e["l"], e["k"], e["w"]) for e in t["ev"][:16]]))
    c.run_traces("Loaders", traces, chunk=3000)
    c.extra["refusals"] = sum(e["e"] == "q" for t in traces for e in t["ev"])
    return c.finish()
