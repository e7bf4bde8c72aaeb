"""P04: the sample stream is a function of seed and configuration.

Several loaders of one configuration run next to each other, with different schedules of their
workers, prefetching, checkpoints, interleaved with each other, with saves and with draws of other
random numbers, in other processes with other hash seeds and with real workers of different speed.
Loaders.tla judges that all of them deliver the same stream."""

import json
import multiprocessing
import os
import pickle
import random
import subprocess
import sys
import zlib

import numpy as np
import torch

import vlib
import wds
from vlib import Check, check_model, collect
from engine import Gen, Hang, Log, Run, entry, finite, wconf
from full import Full, FullRun, FSample, canon, full_entry, rnd
from vloader import Eager, Lazy, Random
from wload import TaskEncoder, kill_children, quiet, tmpdir

from megatron.energon import get_loader, get_train_dataset, stateless

ALL = ("blend", "mix", "concat", "shuffle", "batch", "group", "pack", "epochize", "limit", "repeat", "map", "itermap", "filter")


def ev(e, l=0, k=0, w=0, v=()):
    return dict(e=e, l=l, k=k, w=w, v=list(v))


def trace(name, what, n, ref, evs, fin, **info):
    return dict(name=name, what=what, W=max(n, 1), all=False, fin=fin, n=n, ref=ref, ev=evs, **info)


def noise(rng):
    """Other code of the process uses or seeds the global generators."""
    k = rng.randrange(5)
    if k == 0:
        random.seed(rng.random())
    elif k == 1:
        np.random.seed(rng.randrange(1000))
    elif k == 2:
        torch.manual_seed(rng.randrange(1000))
    elif k == 3:
        rnd()


def interleave(mk_ref, mk, ent, rng, name, n, fin, *, tokens=14, m=3, **info):
    """mk(j) creates the j-th loader."""
    r = mk_ref()
    ref = [ent(t) for t in r.pull(tokens)]
    r.close()
    evs, live, left = [], {}, {}
    for j in range(1, m + 1):
        noise(rng)
        live[j] = mk(j)
        left[j] = tokens
        evs.append(ev("N", j))
        for _ in range(rng.randint(1, 4)):
            noise(rng)
            l = rng.choice(list(live))
            if live[l].dead:
                continue
            k = min(rng.randint(1, 4), left[l])
            if rng.random() < 0.3 and hasattr(live[l].loader, "save_state_rank"):
                live[l].save()
            if rng.random() < 0.15:
                live[l].ds.config()
            left[l] -= k
            evs += [ev("d", l, 0, t["w"], t["v"]) for t in map(ent, live[l].pull(k))]
    for l in live:
        noise(rng)
        evs += [ev("d", l, 0, t["w"], t["v"]) for t in map(ent, live[l].pull(left[l]) if not live[l].dead else [])]
        live[l].close()
    return trace(name, "same", n, ref, evs, fin, **info)


def full_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p04/full/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)

            def mk(j):
                s = rng.randrange(10**6)
                sched = [Eager, lambda: Random(random.Random(s)), Lazy][j % 3]()
                # the loader which cannot be saved delivers the same
                return FullRun(cfg, sched=sched, ck=rng.choice([0, 2 * cfg.n + rng.randint(0, 3)]), prefetch=rng.choice([None, 1, 3]) if cfg.n else None, basic=rng.random() < 0.2, ck_sec=rng.choice([-1, 0, 60]))

            out.append(
                interleave(lambda: FullRun(cfg), mk, full_entry, rng, f"full{k}", cfg.n, cfg.fin, tokens=rng.choice([12, 20, 30]), cfg=cfg.describe())
            )
    return out


def wrap_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p04/wrap/{k}")
        n = rng.choice([0, 0, 1, 2, 2, 3])
        nodes = Gen(rng, ALL, n, depth=rng.choice([1, 2, 3]), savable=False).build()
        world = rng.choice([1, 2])
        kw = dict(rank=rng.randrange(world), world=world)

        def mk(j=None):
            log = Log()
            log.on = False
            log.limit = 1500
            s = rng.randrange(10**6)
            sched = Lazy() if j is None else [Eager, lambda: Random(random.Random(s)), Lazy][j % 3]()
            return Run(nodes, n, log=log, probes=False, sched=sched, ck=0 if j is None else rng.choice([0, 2 * n + 1]), **kw)

        try:
            with quiet():
                t = interleave(mk, mk, lambda t: entry(nodes, t), rng, f"wrap{k}", n, finite(nodes, len(nodes)), nodes=nodes)
        except Hang:
            continue
        except RuntimeError as e:
            if "Pre packer did not yield" not in str(e):
                raise
            continue
        out.append(t)
    return out


def child_streams(seed, lo, hi):
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p04/proc/{k}")
        if k % 3 == 0:
            n = rng.choice([0, 1, 2])
            nodes = Gen(rng, ("group", "group", "blend", "shuffle", "concat", "epochize"), n, depth=rng.choice([1, 2]), savable=False).build(rng.choice(["group", "group", None]))
            for x in nodes:
                if x["t"] == "group":
                    # groups which are not full at the end of the epoch
                    x.update(mod=3, sizes=[3, 4, 5], n=x["n"] and rng.randint(3, 5), dl=rng.random() < 0.2)
            log = Log()
            log.on = False
            log.limit = 1500
            try:
                with quiet():
                    r = Run(nodes, n, log=log, probes=False)
                    out.append((n, finite(nodes, len(nodes)), nodes, [entry(nodes, t) for t in r.pull(24)]))
                    r.close()
            except Hang:
                out.append((n, True, nodes, []))
            continue
        with tmpdir() as d, quiet():
            cfg = Full(rng, d)
            r = FullRun(cfg)
            out.append((cfg.n, cfg.fin, cfg.describe(), [full_entry(t) for t in r.pull(16)]))
            r.close()
    return out


def proc_job(a):
    """The same in another process, with another hash seed."""
    seed, lo, hi = a
    here = child_streams(seed, lo, hi)
    res = []
    for hs in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=os.pathsep.join([os.path.dirname(vlib.__file__), os.path.dirname(__file__)]))
        p = subprocess.run(
            [sys.executable, __file__, str(seed), str(lo), str(hi)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100
        )
        if p.returncode:
            raise vlib.child_error(p.stderr)
        res.append(json.loads(p.stdout.splitlines()[-1]))
    out = []
    for i, (n, fin, desc, ref) in enumerate(here):
        evs = []
        for l, other in enumerate(res, 1):
            evs.append(ev("N", l))
            evs += [ev("d", l, 0, t["w"], t["v"]) for t in other[i][3]]
        out.append(trace(f"process{lo + i}", "process", n, ref, evs, fin, cfg=desc))
    return out


def real_job(a):
    """Real worker processes of different speed."""
    seed, j = a
    rng = random.Random(f"{seed}/p04/real/{j}")
    before = {p.pid for p in multiprocessing.active_children()}
    with tmpdir() as d, quiet():
        while True:
            cfg = Full(rng, d, n=rng.choice([2, 3]), errors=False)
            if cfg.o["encode"]:
                break
        r = FullRun(cfg)
        ref = [full_entry(t) for t in r.pull(16)]
        r.close()
        # whose turn it is, is up to the real loader
        evs = []
        for l in (1, 2):
            noise(rng)
            cfg.o["sleep"] = rng.choice([0.002, 0.01])
            r = FullRun(cfg, real=True, prefetch=rng.choice([1, 2, 4]), ck_sec=rng.choice([-1, 0.01, 60]))
            evs.append(ev("N", l))
            for t, x in zip(ref, map(full_entry, r.pull(16))):
                evs.append(ev("d", l, 0, -1 if not x["v"] else t["w"] if t["w"] >= 0 else 0, x["v"]))
            kill_children(before)
    return trace(f"real{j}", "real", cfg.n, ref, evs, cfg.fin, cfg=cfg.describe())


class Draw(TaskEncoder):
    @stateless(restore_seeds=True)
    def encode_sample(self, s):
        return FSample(
            __key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__=None, val=int(s.text), aug=rnd()
        )


class DrawPlain(TaskEncoder):
    def encode_sample(self, s):
        return FSample(
            __key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__=None, val=int(s.text), aug=rnd()
        )


def distinct_job(a):
    """Different workers, ranks and seeds draw different numbers."""
    seed, j = a
    rng = random.Random(f"{seed}/p04/distinct/{j}")
    world, n = rng.choice([(1, 2), (1, 3), (2, 1), (2, 2), (3, 2), (3, 0), (4, 1)])
    W = world * max(n, 1)
    m = 24
    evs = []
    with tmpdir() as d, quiet():
        wds.text_dataset(d, [m * W])
        for enc in (Draw, DrawPlain)[: 2 if n else 1]:
            draws, orders = [], []
            for so in (0, 1, 7):
                for rank in range(world):
                    ds = get_train_dataset(
                        d, worker_config=wconf(n, rank, world, so), batch_size=None, shuffle_buffer_size=rng.choice([None, 3]),
                        max_samples_per_sequence=1, task_encoder=enc(),
                    )  # fmt: skip
                    r = FullRun.__new__(FullRun)
                    r.n, r.dead, r.it, r.samples = n, False, None, []
                    r.loader = vlib_virtualize(get_loader(ds))
                    per = {}
                    for t in r.pull(m * max(n, 1)):
                        pass
                    for s in r.samples:
                        per.setdefault((s.val // m) if n or world > 1 else 0, []).append(s)
                    for w, ss in sorted(per.items()):
                        draws += [zlib.crc32(repr(s.aug).encode()) & 0x7FFFFFFF for s in ss]
                        orders.append(zlib.crc32(repr([s.val % m for s in ss]).encode()) & 0x7FFFFFFF)
            evs.append(ev("u", 0, 0, 0, draws))
            evs.append(ev("u", 0, 0, 0, orders))
    return trace(f"distinct{j} world={world} n={n}", "distinct", 1, [], evs, False)


def vlib_virtualize(loader):
    from vloader import virtualize

    return virtualize(loader, Lazy())


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS N = {}\nPerWorker = {}\nPrefetch = {}\nLoaders = {}\nSeeded = {}\nINVARIANTS Same\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Determinism/stateless", check_model("Determinism", cfg.format(2, 3 if T else 2, 2, 2, '"index"')))
    c.add_model("Determinism/process", check_model("Determinism", cfg.format(2, 3 if T else 2, 2, 2, '"process"')))
    N = 4000 if T else 200
    traces = [t for p in collect(c, full_job, [(vlib.SEED, k, k + 5) for k in range(0, N, 5)], what="full") for t in p]
    N = 6000 if T else 300
    traces += [t for p in collect(c, wrap_job, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="pipelines") for t in p]
    N, s = (600, 50) if T else (180, 30)
    traces += [t for p in collect(c, proc_job, [(vlib.SEED, k, k + s) for k in range(0, N, s)], what="processes") for t in p]
    traces += collect(c, real_job, [(vlib.SEED, j) for j in range(64 if T else 8)], what="real")
    traces += collect(c, distinct_job, [(vlib.SEED, j) for j in range(32 if T else 8)], what="distinct")
    for t in traces[:: max(len(traces) // 5, 1)]:
        c.sample(dict(name=t["name"], pipeline=t.get("cfg") or [n["t"] for n in t.get("nodes", [])], ev=[(e["e"], e["l"], e["w"], e["v"][:4]) for e in t["ev"][:10]]))
    c.run_traces("Loaders", traces, chunk=3000)
    return c.finish()


if __name__ == "__main__":
    print(json.dumps(child_streams(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]))))
