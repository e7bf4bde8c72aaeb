"""P01: division of the samples over workers (ShardSplit.tla)."""

import json
import os
import random

import vlib
import wds
from vlib import Check, check_model, collect, run_tlc, scratch
from wload import TaskEncoder, quiet, tmpdir, wconf, workers

from megatron.energon import get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sharder import Sharder
from megatron.energon.flavors.webdataset.structs import ShardInfo


def split(counts, ranks, n, m, rot, ncol=1):
    """The parts of all workers of all ranks, as the code under test computes them."""
    G = ranks * max(n, 1)
    parts = []
    for r in range(ranks):
        shards = [
            tuple(ShardInfo(name=f"{c}_{k}.tar", path=EPath(f"/x/{c}_{k}.tar"), offset=0, count=x) for c in range(ncol))
            for k, x in enumerate(counts)
        ]
        rs = Sharder.shard_workers(
            shards, wconf(n, r, ranks), max_samples_per_sequence=m or None, rotation_offset=rot
        )
        for ws in rs:
            sl = []
            for sub in ws:
                a = [(int(x.name.split("_")[1][:-4]) + 1, x.offset, x.count) for x in sub]
                # all columns are cut alike
                ok = len(set(a)) == 1 and [x.name[0] for x in sub] == [str(c) for c in range(ncol)]
                sl.append(a[0] if ok else (0, 0, 0))
            parts.append(sl)
    return parts


def events(counts, m, parts):
    ev = [dict(e="d", shards=list(counts), m=m, s=0, o=0, c=0)]
    z = dict(shards=[], m=0)
    for p in parts:
        ev.append(dict(e="w", s=0, o=0, c=0, **z))
        ev += [dict(e="s", s=s, o=o, c=c, **z) for s, o, c in p]
    ev.append(dict(e="f", s=0, o=0, c=0, **z))
    return ev


END = dict(e="t", shards=[], m=0, s=0, o=0, c=0)


def enum_job(part):
    out = []
    for k, c in part:
        G = c["ranks"] * max(c["workers"], 1)
        # any rotation offset
        rot = c["rot"] * (k % G)
        parts = split(c["shards"], c["ranks"], c["workers"], c["m"], rot)
        out.append(dict(name=f"enum{k} {c} rot={rot}", G=G, ev=events(c["shards"], c["m"], parts)))
    return out


def rand_counts(rng, big=True):
    k = rng.choice([1, 1, 2, 3, 5, 9])
    hi = rng.choice([1, 3, 10, 50, 1000] if big else [1, 3, 6])
    while True:
        c = [rng.choice([0, rng.randint(0, hi), hi, rng.randint(1, hi)]) for _ in range(k)]
        if sum(c):
            return c


def random_job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p01/{k}")
        ranks, n = rng.choice([1, 2, 3, 4, 7, 8, 16]), rng.choice([0, 1, 2, 3, 5, 8])
        G = ranks * max(n, 1)
        ev, tot = [], 0
        nsets = rng.choice([1, 1, 2, 3, 6])
        for _ in range(nsets):
            counts = rand_counts(rng)
            # boundaries of shards exactly at the boundaries of workers
            if rng.random() < 0.2:
                counts = [rng.randint(1, 4) * rng.choice([1, G])] * rng.randint(1, 5)
            m = rng.choice([0, 0, 1, 2, 3, 7, 100])
            parts = split(counts, ranks, n, m, tot % G, rng.choice([1, 1, 2, 3]))
            tot += sum(counts)
            ev += events(counts, m, parts)
        ev.append(END)
        out.append(dict(name=f"random{k}", G=G, ev=ev))
    return out


def shard_of(counts, i):
    for s, c in enumerate(counts, 1):
        if i < c:
            return s, i
        i -= c
    return 0, i


def read_job(a):
    """What the workers of all ranks really read."""
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p01read/{k}")
        ranks, n = rng.choice([1, 2, 3, 4]), rng.choice([0, 1, 2, 3])
        G = ranks * max(n, 1)
        train = rng.random() < 0.6
        nsets = rng.choice([1, 2, 3, 4] if train else [1, 1, 2])
        while True:
            sets = [rand_counts(rng, False) for _ in range(nsets)]
            # a worker without any sample refuses to blend
            if not train or sum(map(sum, sets)) >= G:
                break
        with tmpdir() as d, quiet():
            for j, counts in enumerate(sets):
                wds.text_dataset(f"{d}/d{j}", counts, tag=f"{j}:")
            path = f"{d}/d0"
            if nsets > 1:
                path = wds.metadataset(
                    f"{d}/m.yaml", [dict(path=f"d{j}", weight=1) for j in range(nsets)], split=["train", "val"]
                )
            got = [[] for _ in range(nsets)]
            limit = rng.choice([None, 1, 2, 5]) if train else None
            for r in range(ranks):
                wc = wconf(n, r, ranks)
                if train:
                    ds = get_train_dataset(
                        path, worker_config=wc, batch_size=None, shuffle_buffer_size=rng.choice([None, 4]),
                        max_samples_per_sequence=limit, task_encoder=TaskEncoder(),
                    )  # fmt: skip
                else:
                    ds = get_val_dataset(path, worker_config=wc, batch_size=None, task_encoder=TaskEncoder())
                for w in workers(ds):
                    # Looping data: until all samples were surely seen
                    ss = w.take(30 + 14 * sum(sum(c) for c in sets) if train else None)
                    for j in range(nsets):
                        ids = [int(s.text.split(":")[1]) for s in ss if s.text.split(":")[0] == str(j)]
                        got[j].append(sorted(set(ids)) if train else ids)
        ev = []
        for counts, g in zip(sets, got):
            ev += events(counts, -1, [[(*shard_of(counts, i), 1) for i in ids] for ids in g])
        if train:
            ev.append(END)
        out.append(dict(name=f"read{k} train={train} ranks={ranks} workers={n} sets={sets}", G=G, ev=ev))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    inv = "INVARIANTS Balanced Covers Even AboutMax\nCHECK_DEADLOCK FALSE\n"
    c.add_model("ShardSplit/sets", check_model("ShardSplit", f"SPECIFICATION Spec\nCONSTANTS MaxG = {8 if T else 6}\nMaxShards = 1\nMaxCount = {12 if T else 9}\nMaxSeqs = 0\nNSets = {4 if T else 3}\n" + inv))
    c.add_model("ShardSplit/shards", check_model("ShardSplit", f"SPECIFICATION Spec\nCONSTANTS MaxG = {5 if T else 4}\nMaxShards = {4 if T else 3}\nMaxCount = 4\nMaxSeqs = 2\nNSets = 1\n" + inv))
    out = scratch("p01.json")
    r = run_tlc("ShardSplitGen", f"SPECIFICATION Spec\nCONSTANTS MaxShards = {4 if T else 3}\nMaxCount = {4 if T else 3}\nMaxG = {6 if T else 5}\nMaxSeqs = 2\nCHECK_DEADLOCK FALSE\n", env={"OUT": out})
    try:
        conf = list(enumerate(json.loads(x) for x in open(out)))
    except OSError:
        raise vlib.MachineryError(r.out[-2000:])
    c.extra["enumerated_configurations"] = len(conf)
    if T and len(conf) > 150000:
        c.rng.shuffle(conf)
        conf = conf[:150000]
    traces = [t for p in collect(c, enum_job, [conf[k::64] for k in range(64)], what="enumerated") for t in p]
    n = 8000 if T else 1200
    traces += [t for p in collect(c, random_job, [(vlib.SEED, k, k + 50) for k in range(0, n, 50)], what="random") for t in p]
    n = 1200 if T else 160
    traces += [t for p in collect(c, read_job, [(vlib.SEED, k, k + 5) for k in range(0, n, 5)], what="read") for t in p]
    for t in traces[-3:]:
        c.sample(dict(name=t["name"], ev=t["ev"][:12]))
    c.run_traces("ShardSplitTrace", traces, chunk=40000)
    return c.finish()
