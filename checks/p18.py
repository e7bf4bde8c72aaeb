"""P18: reading ranges of a shard (TarShard.tla)."""

import pickle
import random
import struct

import vlib
import tars
import wds
from vlib import Check, VirtualProcess, check_model, collect
from wload import quiet, tmpdir, wconf

from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
from megatron.energon.flavors.webdataset.structs import ShardInfo
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator


class SerialPool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap(self, f, xs, *a, **k):
        return map(f, list(xs))

    map = imap


def prepare(d, names, **kw):
    """The real preparation without worker processes (P22 has those)."""
    import multiprocessing

    orig = multiprocessing.Pool
    multiprocessing.Pool = SerialPool
    try:
        kw.setdefault("split_parts_ratio", [("train", 1.0)])
        return WebdatasetPreparator.prepare_dataset(d, names, workers=1, **kw)
    finally:
        multiprocessing.Pool = orig


def read_index(path):
    with open(path, "rb") as f:
        b = f.read()
    return list(struct.unpack(f"{len(b) // 8}Q", b))


def sample(raw, names):
    """(base, index, parts) of a delivered raw sample."""
    s = raw[0]
    shard, base = s["__key__"].split("/", 1)
    ok = s["__shard__"] == shard and s["__restore_key__"][:2] == ("Webdataset", shard)
    parts = sorted([tars.MANY.index(k) + 1 if k in tars.MANY else 0, tars.content(v)] for k, v in s.items() if not k.startswith("__"))
    return dict(b=names.get(base, -1) if ok else -2, i=s["__restore_key__"][2], parts=parts)


class Reader:
    def __init__(self, d, shard, off, cnt, exclude, filt):
        self.ds = WebdatasetSampleLoaderDataset(
            [[(ShardInfo(name=shard, path=EPath(f"{d}/{shard}"), offset=off, count=cnt),)]],
            worker_config=wconf(0), exclude=set(exclude), loop=False, parallel_shard_iters=1,
            part_filter=None if filt is None else (lambda x: x in filt),
        )  # fmt: skip
        self.it = None

    def take(self, k, names):
        ev = []
        wc = self.ds.worker_config
        wc.worker_activate(0)
        try:
            while len(ev) < k:
                if self.it is None:
                    self.it = iter(self.ds)
                try:
                    ev.append(dict(e="d", **sample(next(self.it), names)))
                except StopIteration:
                    self.it = None
                    ev.append(dict(e="e", b=0, i=0, parts=[]))
                    if k == 999:
                        break
        finally:
            wc.worker_deactivate()
        return ev

    def save(self):
        return pickle.loads(pickle.dumps(self.ds.merge_states([self.ds.save_state()])))


def job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p18/{k}")
        with tmpdir() as d, quiet():
            shard = rng.choice(["shard.tar", "shard_000.tar", "x.y.tar"])
            es = tars.entries(rng)
            names = {e["base"]: e["b"] for e in es if e["k"] == "f"}
            path = f"{d}/{shard}"
            end = tars.write(path, es, rng)
            own = rng.random() < 0.3
            if own and shard != "x.y.tar":
                tars.index(path, es, end)
            else:
                prepare(d, [shard])
            idx = read_index(path[: -len(".tar")] + ".tar.idx")
            N = len(tars.starts(es))
            base = dict(es=tars.spec(es), end=end)
            ev = [dict(e="x", b=0, i=0, parts=idx)]
            out.append(dict(name=f"index{k}", off=0, cnt=N, excl=[], filt=[], ev=ev, **base))
            ranges = [(o, c) for o in range(N + 1) for c in range(1, N - o + 1)]
            ranges = rng.sample(ranges, min(len(ranges), 6)) + [(0, N)]
            for off, cnt in ranges:
                ex = rng.sample(sorted(names), rng.choice([0, 0, 1, 2, len(names)]) % (len(names) + 1))
                filt = None if rng.random() < 0.5 else rng.sample(tars.MANY, rng.randint(0, 3))
                exn = [f"{shard}/{x}" for x in ex] + ["other.tar/" + x for x in names][:1]
                mk = lambda: Reader(d, shard, off, cnt, exn, filt)
                t = dict(
                    name=f"range{k} [{off},+{cnt}) of {N} exclude={ex} filter={filt}", off=off, cnt=cnt,
                    excl=[names[x] for x in ex], filt=list(range(1, len(tars.MANY) + 1)) if filt is None else [tars.MANY.index(x) + 1 for x in filt],
                    **base,
                )  # fmt: skip
                r = mk()
                ev = r.take(999, names)
                # continue from every position
                ev += r.take(rng.randint(0, cnt), names)
                for slot in range(1, rng.randint(2, 5)):
                    ev.append(dict(e="s", b=0, i=slot, parts=[]))
                    st = r.save()
                    ev += r.take(rng.randint(0, 2), names)
                    r = mk()
                    r.ds.restore_state(st)
                    ev.append(dict(e="R", b=0, i=slot, parts=[]))
                    ev += r.take(rng.randint(0, 2), names)
                ev += r.take(999, names)
                for i in rng.sample(range(N), min(N, 3)):
                    if not any(e["b"] == i + 1 and e["base"] in ex for e in es):
                        g = sample(mk().ds.restore_sample(("Webdataset", shard, i)), names)
                        # the restored sample has the same key
                        ev.append(dict(e="g", b=g["b"], i=i if g["i"] == i else -1, parts=g["parts"]))
                out.append({**t, "ev": ev})
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxEntries = {}\nBases = {{1, 2, 3}}\nPartNames = {{1}}\nINVARIANTS Prefix Complete\nCHECK_DEADLOCK FALSE\n"
    c.add_model("TarReader", check_model("TarReader", cfg.format(6 if T else 5)))
    n = 6000 if T else 480
    traces = [t for p in collect(c, job, [(vlib.SEED, k, k + 15) for k in range(0, n, 15)], what="shards") for t in p]
    for t in traces[:: max(len(traces) // 4, 1)]:
        c.sample(dict(name=t["name"], ev=t["ev"][:10]))
    c.run_traces("TarShardTrace", traces, chunk=4000)
    return c.finish()
