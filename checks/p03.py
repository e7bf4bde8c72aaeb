"""P03: one worker's pass over its slices (SampleLoader.tla)."""

import itertools
import pickle
import random

import vlib
import wds
from vlib import Check, VirtualProcess, check_model, collect
from wload import TaskEncoder, quiet, tmpdir, wconf, workers
from vloader import Lazy, shutdown, virtualize

from megatron.energon import get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
from megatron.energon.flavors.webdataset.structs import ShardInfo
from p01 import split


def trace(name, items, P, k, loop, ev):
    return dict(name=name, items=items, max=max([len(x) for x in items] + [1]), P=P, k=k, loop=loop, ev=ev)


def number(s):
    return wds.number(s[0]["__key__"])


class Direct:
    """The sample loader dataset over given slices."""

    def __init__(self, d, slices, w, n, exclude, k, P, loop):
        self.w, self.n = w, max(n, 1)
        mk = lambda: [
            (ShardInfo(name=f"shard_{s:03d}.tar", path=EPath(f"{d}/shard_{s:03d}.tar"), offset=o, count=c),)
            for s, o, c in slices
        ]
        other = [(ShardInfo(name="shard_000.tar", path=EPath(f"{d}/shard_000.tar"), offset=0, count=1),)]
        self.ds = WebdatasetSampleLoaderDataset(
            [mk() if j == w else list(other) for j in range(self.n)],
            worker_config=wconf(n), exclude=set(exclude), loop=loop,
            shuffle_over_epochs=None if k == 0 else k, parallel_shard_iters=P,
        )  # fmt: skip
        self.proc = VirtualProcess(w if n else None, n, seed=7)
        self.it = None

    def take(self, k):
        ev = []
        with self.proc, quiet():
            wc = self.ds.worker_config
            wc.worker_activate(len(ev))
            try:
                while len(ev) < k:
                    if self.it is None:
                        self.it = iter(self.ds)
                    try:
                        ev.append(dict(e="d", v=number(next(self.it))))
                    except StopIteration:
                        self.it = None
                        ev.append(dict(e="e", v=0))
            finally:
                wc.worker_deactivate()
        return ev

    def save(self):
        with self.proc:
            st = self.ds.save_state()
        return pickle.loads(pickle.dumps(self.ds.merge_states([st if j == self.w else None for j in range(self.n)])))

    def restore(self, st):
        self.ds.restore_state(st)


def history(mk, ev, rng, total, slots=3):
    """Deliver, save and restore (also older states)."""
    r = mk()
    ev += r.take(rng.randint(0, total // 2))
    saved = []
    for _ in range(rng.choice([0, 1, 2, slots])):
        saved.append(r.save())
        ev.append(dict(e="s", v=len(saved)))
        ev += r.take(rng.randint(0, 4))
        use = len(saved) if rng.random() < 0.7 else rng.randint(1, len(saved))
        r = mk()
        r.restore(saved[use - 1])
        ev.append(dict(e="R", v=use))
        ev += r.take(rng.randint(0, total))
    ev += r.take(rng.randint(total // 2, total))
    return r


def direct_job(a):
    seed, cfgs = a
    out = []
    with tmpdir() as d:
        counts = [6, 6, 6, 6, 30]
        wds.text_dataset(d, counts)
        first = [0, 6, 12, 18, 24]
        for k, (lens, P, copies, loop) in cfgs:
            rng = random.Random(f"{seed}/p03/{k}")
            slices, used = [], {}
            shard = 0
            for L in lens:
                # neighbouring slices of one shard, or the next shard
                s = rng.randint(0, 3) if rng.random() < 0.5 else shard % 4
                if used.get(s, 0) + L > 6:
                    s = 4
                o = used.get(s, 0)
                used[s] = o + L
                slices.append((s, o, L))
                shard += 1
            items = [[first[s] + o + j for j in range(L)] for s, o, L in slices]
            allids = [x for it in items for x in it]
            exclude = rng.sample(allids, rng.choice([0, 0, 1, 2, len(allids)]) % (len(allids) + 1)) if allids else []
            if loop and len(exclude) == len(allids):
                exclude = []
            names = [f"shard_{s:03d}.tar/s{i:06d}" for i in exclude for s in range(5) if first[s] <= i < first[s] + counts[s]]
            eff = [[x for x in it if x not in exclude] for it in items]
            n = rng.choice([0, 0, 1, 2, 3])
            w = rng.randrange(max(n, 1))
            ev = []
            mk = lambda: Direct(d, slices, w, n, names, copies, P, loop)
            total = max(4, sum(map(len, eff)) * max(copies, 1) + 2)
            r = history(mk, ev, rng, total)
            if copies == -1:
                ev += r.take(40 * (1 + sum(lens)) * len(lens))
                ev.append(dict(e="f", v=0))
            out.append(trace(f"direct{k} slices={slices} P={P} k={copies} loop={loop}", eff, P, copies, loop, ev))
    return out


class Full:
    """A savable loader without worker processes."""

    def __init__(self, ds):
        self.loader = get_savable_loader(ds)
        self.it = None

    def take(self, k):
        ev = []
        with quiet():
            while len(ev) < k:
                if self.it is None:
                    self.it = iter(self.loader)
                try:
                    ev.append(dict(e="d", v=int(next(self.it).text)))
                except StopIteration:
                    self.it = None
                    ev.append(dict(e="e", v=0))
        return ev

    def save(self):
        return pickle.loads(pickle.dumps(self.loader.save_state_rank()))

    def restore(self, st):
        self.loader.restore_state_rank(st)


def full_job(a):
    """Datasets as built from disk, with all their workers."""
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p03full/{k}")
        with tmpdir() as d, quiet():
            counts = [rng.randint(0, 6) for _ in range(rng.randint(1, 5))] + [rng.randint(2, 5)]
            ids = range(sum(counts))
            exs = rng.sample(ids, rng.choice([0, 0, 1, 3]) % len(ids))
            names = [f"shard_{j:03d}.tar" for j in range(len(counts))]
            whole = []
            if rng.random() < 0.25 and len(counts) > 2:
                whole = [rng.randrange(len(counts) - 1)]
            first = [sum(counts[:j]) for j in range(len(counts))]
            ex = [f"{names[j]}/s{i:06d}" for i in exs for j in range(len(counts)) if first[j] <= i < first[j] + counts[j]]
            wds.text_dataset(d, counts, exclude=ex + [names[j] for j in whole])
            kept = [j for j in range(len(counts)) if j not in whole]
            train = rng.random() < 0.75
            ranks, n = rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2])
            m = rng.choice([0, 0, 1, 2, 3])
            copies = rng.choice([1, 1, 2, 3, -1]) if train else 0
            P = rng.choice([1, 2, 3, 16]) if train else 1
            rank = rng.randrange(ranks)

            def mk():
                kw = dict(worker_config=wconf(n, rank, ranks), batch_size=None, task_encoder=TaskEncoder())
                if train:
                    return get_train_dataset(
                        d, shuffle_buffer_size=None, max_samples_per_sequence=m or None,
                        shuffle_over_epochs_multiplier=copies, parallel_shard_iters=P, **kw,
                    )  # fmt: skip
                return get_val_dataset(d, **kw)

            parts = split([counts[j] for j in kept], ranks, n, m if train else 0, 0)
            W = max(n, 1)
            for w in range(W):
                items = [[first[kept[s - 1]] + o + j for j in range(c)] for s, o, c in parts[rank * W + w]]
                items = [[x for x in it if x not in exs] for it in items]
                if sum(map(len, items)) == 0 and train:
                    continue
                name = f"full{k}/{w} counts={counts} train={train} m={m} P={P} k={copies} ranks={ranks} n={n}"
                total = sum(map(len, items)) * max(copies, 1) + 2
                ev = []
                if n == 0:
                    r = history(lambda: Full(mk()), ev, rng, total)
                    if copies == -1:
                        ev += r.take(40 * len(items) * (1 + max(map(len, items))))
                        ev.append(dict(e="f", v=0))
                else:
                    wk = workers(mk())[w]
                    for _ in range(3):
                        ev += [dict(e="d", v=int(s.text)) for s in wk.take(total if train else None)]
                        if not train:
                            ev.append(dict(e="e", v=0))
                out.append(trace(name, items, P, copies, train, ev))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxSlices = {}\nMaxLen = {}\nMaxIters = {}\nMaxCopies = {}\nPasses = 1\nDraws = 3\nINVARIANTS AtMostOpen Exact InOrder\nCHECK_DEADLOCK FALSE\n"
    c.add_model("SampleLoader", check_model("SampleLoader", cfg.format(*((3, 2, 3, 2) if T else (2, 2, 2, 2)))))
    lens = [x for k in (1, 2, 3) for x in itertools.product(range(1, 5), repeat=k)]
    cfgs = [
        (x, P, k, loop)
        for x in lens for P in (1, 2, 3) for k in (0, 1, 2, -1) for loop in (True, False)
        if (k != 0 or P == 1) and (k != -1 or loop)
    ]  # fmt: skip
    rng = c.rng
    for _ in range(3000 if T else 300):
        x = [rng.randint(1, 6) for _ in range(rng.randint(2, 7))]
        if 0 < sum(x) <= 30:
            k = rng.choice([0, 1, 2, 3, -1])
            cfgs.append((x, 1 if k == 0 else rng.choice([1, 2, 4, 16]), k, k == -1 or rng.random() < 0.7))
    c.extra["configurations"] = len(cfgs)
    cfgs = list(enumerate(cfgs))
    rng.shuffle(cfgs)
    if not T:
        cfgs = cfgs[:1000]
    traces = [t for p in collect(c, direct_job, [(vlib.SEED, cfgs[k::48]) for k in range(48)], what="direct", timeout=60) for t in p]
    n = 3000 if T else 240
    traces += [t for p in collect(c, full_job, [(vlib.SEED, k, k + 10) for k in range(0, n, 10)], what="full") for t in p]
    for t in traces[:: max(len(traces) // 4, 1)]:
        c.sample(dict(name=t["name"], items=t["items"], ev=t["ev"][:15]))
    c.run_traces("SampleLoaderTrace", traces, chunk=2000)
    return c.finish()
