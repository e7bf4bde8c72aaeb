"""P16: joins. Columns of one shard enumerated by TLC from Join.tla are read by the real sample loader with all save
points; random worlds of joined datasets with and without mismatches run through complete loaders. JoinTrace.tla judges
every joined sample, restored sample and report."""

import dataclasses
import json
import os
import pickle
import random
import sys
import types

import yaml

import vlib
import wds
from vlib import Check, VirtualProcess, check_model, collect, scratch
from vdata import energon
from vloader import Lazy, shutdown, virtualize
from wload import Worker, quiet, tmpdir, wconf

from megatron.energon import Sample, TaskEncoder, get_loader, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
from megatron.energon.flavors.webdataset.structs import ShardInfo

NONE = "none"


def column(c):
    return dataclasses.make_dataclass(f"A{c}", [(f"f{c}", object, NONE), (f"g{c}", object, NONE), ("h", object, NONE)], bases=(Sample,), kw_only=True)


TYPES = [column(c) for c in range(3)]
All = dataclasses.make_dataclass("All", [(f"{x}{c}", object, NONE) for c in range(3) for x in "fg"] + [("h", object, NONE)], bases=(Sample,), kw_only=True)


@dataclasses.dataclass
class Cols(Sample):
    cols: list = None
    named: dict = None

    @classmethod
    def from_joined(cls, *a, **k):
        p = a[0] if a else k[list(k)[0]]
        return cls(__key__=p.__key__, __restore_key__=(), __subflavor__=None, __subflavors__=None, cols=list(a), named=dict(k))


mod = types.ModuleType("verif_p16")
for x in TYPES + [All, Cols]:
    x.__module__ = "verif_p16"
    setattr(mod, x.__name__, x)
mod.join = lambda *a, **k: Cols.from_joined(*a, **k)
sys.modules["verif_p16"] = mod


def ev(e, w=1, key="", cols=(), rk=()):
    return dict(e=e, w=w, key=key, cols=list(cols), rk=list(rk))


# ------------------------------------------------------------------------------- single shards


def base(key):
    return str(key).split("/", 1)[1]


def entry(groups, e="d"):
    cols = [dict(k=base(g["__key__"]), d=b"".join(g[x] for x in sorted(g) if not x.startswith("__")).decode()) for g in groups]
    rk = [dict(n=g["__restore_key__"][1], i=g["__restore_key__"][2] + 1) for g in groups]
    return ev(e, key=groups[0]["__key__"], cols=cols, rk=rk)


class Reader:
    """The sample loader over the columns of one shard."""

    def __init__(self, d, names, cols, rng, raise_):
        n = len(cols[0])
        exclude = {f"{nm}/s{r['k']}" for nm, col in zip(names, cols) for r in col if r["ex"]}
        self.errs = []

        def handler(e, key):
            if raise_:
                raise e
            self.errs.append(str(key))

        infos = tuple(ShardInfo(name=nm, path=EPath(f"{d}/{nm}"), offset=0, count=n) for nm in names)
        self.ds = WebdatasetSampleLoaderDataset([[infos]], worker_config=wconf(0), exclude=exclude, loop=False, shuffle_over_epochs=None, parallel_shard_iters=1, handler=handler)
        self.proc, self.it = VirtualProcess(None, 0, seed=3), None

    def take(self, evs, k=99):
        """Returns whether the epoch goes on."""
        wc = self.ds.worker_config
        with self.proc, quiet():
            wc.worker_activate(0)
            try:
                if self.it is None:
                    self.it = iter(self.ds)
                for _ in range(k):
                    try:
                        evs.append(entry(next(self.it)))
                    except StopIteration:
                        break
                    except Exception:
                        evs.append(ev("x"))
                        break
                    finally:
                        evs += [ev("r", key=k) for k in self.errs]
                        del self.errs[:]
                else:
                    return True
                evs.append(ev("e"))
                return False
            finally:
                wc.worker_deactivate()


def direct(worlds):
    out = []
    for num, w in worlds:
        cols = w["cols"]
        rng = random.Random(f"{vlib.SEED}/p16/{num}")
        with tmpdir() as d:
            names = [f"c{c}.tar" for c in range(len(cols))]
            for c, col in enumerate(cols):
                ents = []
                for r in col:
                    r["d"] = f"{c}|{r['k']}"
                    for j in range(1 + (r["k"] + c) % 2):
                        ents.append((f"s{r['k']}.{'ab'[j]}", r["d"].encode() if j == 0 else b"", j == 0))
                        if rng.random() < 0.2:
                            ents.append((f"dir{r['k']}", None, False))
                wds.write_tar(f"{d}/{names[c]}", ents)
            T = [[dict(r, k=f"s{r['k']}") for r in col] for col in cols]
            info = dict(names=[[n] for n in names], cols=[T], max=3, refuse=False, order=True, loop=False, total=[0], sliced=False, one=True)
            for raise_ in (False, True):
                evs = []
                Reader(d, names, cols, rng, raise_).take(evs)
                ds = Reader(d, names, cols, rng, raise_).ds
                for e in [e for e in evs if e["e"] == "d"]:
                    with quiet():
                        evs.append(entry(ds.restore_sample(("Webdataset", *[x for r in e["rk"] for x in (r["n"], r["i"] - 1)])), "k"))
                out.append(dict(name=f"w{num}", evs=evs, **info))
                for j in range(1, sum(e["e"] == "d" for e in evs) + 1):
                    evs, r = [], Reader(d, names, cols, rng, raise_)
                    if not r.take(evs, j):
                        continue
                    with r.proc:
                        st = pickle.loads(pickle.dumps(r.ds.merge_states([r.ds.save_state()])))
                    evs.append(ev("s"))
                    if rng.random() < 0.5:
                        r.take(evs)
                        evs.append(ev("R", 1))
                        reported = [e for e in evs if e["e"] == "r"]
                    else:
                        reported = []
                    # what was reported before the save is not reported again
                    r = Reader(d, names, cols, rng, raise_)
                    r.ds.restore_state(st)
                    evs += reported
                    r.take(evs)
                    out.append(dict(name=f"w{num}s{j}", evs=evs, **info))
    return out


# ------------------------------------------------------------------------------- random worlds


def make(rng, d):
    C, S = rng.choice([2, 2, 2, 3]), rng.randint(1, 4)
    fault = rng.choice(["", "", "", "", "rename", "swap", "exclude", "json", "json", "field", "count", "shards", "excludes"])
    same = rng.random() < 0.4 and fault != "exclude"
    names = [[(f"part{s}.tar" if same else f"{'xyz'[c]}/{s}.tar" if rng.random() < 0 else f"{'xyz'[c]}{s}.tar") for s in range(S)] for c in range(C)]
    sub = rng.choice(["", "", "img/"])
    n, cols = 0, []
    for s in range(S):
        rows = rng.randint(1, 7)
        keys = [f"{sub}s{n + r}" for r in range(rows)]
        n += rows
        cols.append([[dict(k=k, ex=False, ok=True) for k in keys] for c in range(C)])
    exclude = set()
    whole = -1
    if rng.random() < 0.5:
        for s in range(S):
            for r in range(len(cols[s][0])):
                if rng.random() < 0.25:
                    for c in range(C):
                        cols[s][c][r]["ex"] = True
                        exclude.add(f"{names[c][s]}/{cols[s][c][r]['k']}")
    if S > 1 and rng.random() < 0.15:
        whole = rng.randrange(S)
        exclude |= {names[c][whole] for c in range(C)}
    kept = [s for s in range(S) if s != whole]
    s, c = rng.choice(kept), rng.randrange(1, C)
    rows = cols[s][c]
    r = rng.randrange(len(rows))
    if fault == "rename":
        rows[r]["k"] = rng.choice([f"{sub}s{n}", f"{sub}s{n}", f"{sub}t"])
    elif fault == "swap":
        q = rng.randrange(len(rows))
        rows[r], rows[q] = rows[q], rows[r]
    elif fault == "exclude":
        q = rng.randrange(C)
        cols[s][q][r]["ex"] = True
        exclude.add(f"{names[q][s]}/{cols[s][q][r]['k']}")
    elif fault in ("json", "field"):
        for _ in range(rng.randint(1, 3)):
            s = rng.choice(kept)
            cols[s][rng.randrange(C)][rng.randrange(len(cols[s][0]))]["ok"] = False
    plain = [rng.random() < 0.4 and fault not in ("json", "field") for _ in range(C)]
    for s in range(S):
        for c in range(C):
            ents = []
            for x in cols[s][c]:
                x["d"] = f"{c}|{s}|{x['k']}"
                parts = [("txt", x["d"].encode())]
                if not plain[c]:
                    good = json.dumps({"v": x["d"]}).encode()
                    if x["ok"]:
                        parts.append(("json", good))
                    elif fault == "json":
                        parts.append(("json", rng.choice([b"{", b"\xff\xfe", good[:-1]])))
                if rng.random() < 0.3:
                    parts.append(("other", os.urandom(rng.choice([0, 1, 600]))))
                if rng.random() < 0.3:
                    rng.shuffle(parts)
                for j, (ext, data) in enumerate(parts):
                    ents.append((f"{x['k']}.{ext}", data, j == 0))
                    if rng.random() < 0.1:
                        ents.append(("__meta__/x", b"m", False))
            os.makedirs(f"{d}/ds{c}", exist_ok=True)
            wds.write_tar(f"{d}/ds{c}/{names[c][s]}", ents)
    order = list(range(S))
    for c in range(C):
        counts = {names[c][s]: len(cols[s][c]) for s in range(S)}
        mine, ex = [names[c][s] for s in order], set(exclude)
        if c == C - 1:
            if fault == "count":
                counts[names[c][rng.choice(kept)]] += rng.choice([1, -1])
            elif fault == "shards":
                mine = mine[:-1] if S > 1 and whole == -1 else mine + mine[:1] if whole != 0 else mine + mine[-1:]
            elif fault == "excludes":
                ex ^= {f"{names[c][kept[0]]}/{cols[kept[0]][c][0]['k']}"}
        ds = {
            "__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
            "sample_type": {"__module__": "verif_p16", "__class__": f"A{c}"},
            "field_map": {f"f{c}": "txt", "h": "txt", **({} if plain[c] else {f"g{c}": "json"})},
        }  # fmt: skip
        ex = sorted(ex)
        rng.shuffle(ex)
        wds.write_meta(f"{d}/ds{c}", counts, {"train": mine, "val": mine}, exclude=ex, dataset=ds)
    mode = rng.choice(["default", "list", "dict", "fn"])
    refs = [dict(path=f"ds{c}") for c in range(C)]
    fields = rng.sample(["b", "a", "z", "text", "0"], C)
    e = {
        "join": dict(zip(fields, refs)) if mode == "dict" else refs,
        "joiner": {"__module__": "verif_p16", **({"__function__": "join"} if mode == "fn" else {"__class__": "All" if mode == "default" else "Cols"})},
    }  # fmt: skip
    with open(f"{d}/meta.yaml", "w") as f:
        yaml.safe_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": e, "val": e}}, f, sort_keys=False)
    info = dict(
        names=[[names[c][s] for s in kept] for c in range(C)], cols=[cols[s] for s in kept], max=8,
        refuse=fault in ("count", "shards", "excludes"), what=f"{fault or 'match'}/{mode}",
    )  # fmt: skip
    return info, fields if mode == "dict" else None, plain


def joined(s, C, names, fields, plain, e="d", w=1):
    def col(c, x):
        if not plain[c] and (type(x[1]) is not dict or x[1].get("v") != x[0]):
            return dict(k="bad", d="bad")
        return dict(k=str(x[0]).split("|")[-1], d=str(x[0]))

    if isinstance(s, All):
        cols = [col(c, (getattr(s, f"f{c}"), getattr(s, f"g{c}"))) for c in range(C)]
        if s.h != getattr(s, f"f{C - 1}"):
            cols[-1]["d"] = "bad"
    else:
        parts = s.cols if fields is None else [s.named.get(f) for f in fields]
        extra = len(s.named) if fields is None else len(s.cols) + len(s.named) - C
        cols = []
        for c, x in enumerate(parts):
            if type(x) is not TYPES[c]:
                cols.append(dict(k="bad", d="bad"))
                continue
            y = col(c, (getattr(x, f"f{c}"), getattr(x, f"g{c}")))
            shard, k = x.__key__.split("/", 1)
            if shard not in names[c] or k != y["k"]:
                y["k"] = "bad"
            cols.append(y)
        if extra:
            cols = []
    rk = list(s.__restore_key__)
    # loaders put their own prefix in front
    rk = rk[rk.index("Webdataset") :] if "Webdataset" in rk else []
    pairs = [dict(n=str(n), i=int(i) + 1) for n, i in zip(rk[1::2], rk[2::2])]
    if len(rk) != 2 * C + 1:
        pairs = []
    return ev(e, w, s.__key__, cols, pairs)


def worlds(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p16w/{k}")
        with tmpdir() as d, quiet():
            info, fields, plain = make(rng, d)
            C, names = len(info["names"]), info["names"]
            live = sum(not r["ex"] for s in info["cols"] for r in s[0])
            faulty = not info["what"].startswith("match")
            train = rng.random() < 0.5 and not faulty and live > 0
            world, n = rng.choice([(1, 0), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (3, 2)])
            if train and any(r["ex"] for s in info["cols"] for r in s[0]):
                # a worker whose samples are all excluded would search forever
                world, n = 1, min(n, 1)
            raise_ = faulty and rng.random() < 0.4
            errs = []

            def handler(e, key):
                if raise_:
                    raise e
                errs.append(str(key))

            msps = rng.choice([None, None, 1, 2, 3])
            kw = dict(worker_config=None, batch_size=None, max_samples_per_sequence=msps, task_encoder=TaskEncoder())
            if faulty or rng.random() < 0.5:
                kw["handler"] = handler
            if train:
                kw.update(shuffle_buffer_size=None, parallel_shard_iters=rng.choice([1, 2, 5]), virtual_epoch_length=0)
                if rng.random() < 0.3:
                    kw["shuffle_over_epochs_multiplier"] = rng.choice([1, 2])

            def mk(rank):
                kw["worker_config"] = wconf(n, rank, world)
                return (get_train_dataset if train else get_val_dataset)(f"{d}/meta.yaml", **kw)

            total = world * max(n, 1)
            sliced = True
            info.update(name=f"world{k}", order=not train or (kw["parallel_shard_iters"] == 1 and msps is None and total == 1), loop=train, total=[0] * total, sliced=sliced, one=total == 1)
            evs = []
            one = lambda s, e="d", w=1: joined(s, C, names, fields, plain, e, w)

            def dry(r):
                loader = virtualize(get_savable_loader(mk(r), worker_config=wconf(n, r, world)), Lazy())
                ws = []
                try:
                    for s in loader:
                        ws.append(s.__restore_key__[1])
                except Exception:
                    pass
                shutdown(loader)
                del errs[:]
                return ws

            def reports():
                for x in errs:
                    evs.extend([ev("r", key=y) for y in x.split(",")])
                del errs[:]

            try:
                sets = [mk(r) for r in range(world)]
            except Exception:
                out.append(dict(info, evs=[ev("c")]))
                continue
            if info["refuse"]:
                out.append(dict(info, evs=[ev("e")]))
                continue
            if train:
                info["order"] = info["order"] and kw.get("shuffle_over_epochs_multiplier", 1) == 1
            got = []
            if train:
                if total == 1 and kw.get("shuffle_over_epochs_multiplier", 1) == 1:
                    info["total"] = [live]
                for r in range(world):
                    # workers without samples stop the loader
                    loader = virtualize(get_savable_loader(sets[r], worker_config=wconf(n, r, world)), Lazy())
                    it = iter(loader)
                    m = rng.randint(1, 2 * live + 3)
                    try:
                        for _ in range(m):
                            s = next(it)
                            got.append((r, s))
                            evs.append(one(s, w=r * max(n, 1) + 1))
                        if rng.random() < 0.7:
                            st = pickle.loads(pickle.dumps(loader.save_state_rank()))
                            evs.append(ev("s"))
                            slot = sum(e["e"] == "s" for e in evs)
                            for _ in range(rng.randint(0, 4)):
                                evs.append(one(next(it), w=r * max(n, 1) + 1))
                            evs.append(ev("R", slot))
                            shutdown(loader)
                            loader = virtualize(get_savable_loader(mk(r), worker_config=wconf(n, r, world)), Lazy())
                            loader.restore_state_rank(st)
                            it = iter(loader)
                            for _ in range(rng.randint(1, live + 3)):
                                s = next(it)
                                got.append((r, s))
                                evs.append(one(s, w=r * max(n, 1) + 1))
                    except StopIteration:
                        pass
                    shutdown(loader)
            elif rng.random() < 0.5 and not raise_:
                # complete epochs of savable loaders
                for epoch in range(1 if faulty else 2):
                    for r in range(world):
                        ds = sets[r] if epoch == 0 else mk(r)
                        loader = virtualize(get_savable_loader(ds, worker_config=wconf(n, r, world)), Lazy())
                        it = iter(loader)
                        # saved where every worker has samples left in this epoch
                        save = 0
                        if rng.random() < 0.6:
                            ws = dry(r)
                            places = [p for p in range(1, len(ws)) if set(ws[p:]) == set(ws)]
                            save = rng.choice(places) if places else 0
                        j = 0
                        while True:
                            try:
                                s = next(it)
                            except StopIteration:
                                break
                            except Exception:
                                evs.append(ev("x"))
                                break
                            j += 1
                            got.append((r, s))
                            evs.append(one(s, w=r * max(n, 1) + 1))
                            reports()
                            if j == save:
                                st = pickle.loads(pickle.dumps(loader.save_state_rank()))
                                shutdown(loader)
                                loader = virtualize(get_savable_loader(mk(r), worker_config=wconf(n, r, world)), Lazy())
                                loader.restore_state_rank(st)
                                it = iter(loader)
                        reports()
                        shutdown(loader)
                    evs.append(ev("e"))
                info["order"] = False if n > 1 else info["order"]
            else:
                for epoch in range(1 if faulty else 2):
                    for r in range(world):
                        loader = get_loader(sets[r] if epoch == 0 else mk(r))
                        for w in range(max(n, 1)):
                            x = Worker(loader, w)
                            while True:
                                try:
                                    t = x.take(1)
                                except Exception:
                                    evs.append(ev("x"))
                                    break
                                reports()
                                if not t:
                                    break
                                evs.append(one(t[0], w=r * max(n, 1) + w + 1))
                            reports()
                    evs.append(ev("e"))
            for r, s in rng.sample(got, min(len(got), 4)):
                loader = virtualize(get_savable_loader(mk(r), worker_config=wconf(n, r, world)), Lazy())
                key = s.__restore_key__
                if rng.random() < 0.5:
                    key = pickle.loads(pickle.dumps(key))
                y = loader.restore_sample(key)
                e = one(y, "k")
                if e["key"] != s.__key__ or tuple(y.__restore_key__) != tuple(s.__restore_key__):
                    e["rk"] = []
                evs.append(e)
                shutdown(loader)
            del errs[:]
            out.append(dict(info, evs=evs))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    out = scratch("joins.json")
    for keys, rows, n, emit in [(3, 3, 2, True), (2, 2, 3, False)] + ([(3, 3, 3, False), (4, 4, 2, False)] if T else []):
        cfg = f"SPECIFICATION Spec\nCONSTANTS Keys = {{{', '.join(map(str, range(1, keys + 1)))}}}\nMaxRows = {rows}\nColumns = {n}\nEmit = {'TRUE' if emit else 'FALSE'}\nINVARIANTS SameKeys Once Complete Beginning Reported\nCHECK_DEADLOCK FALSE\n"
        c.add_model("Join", check_model("Join", cfg, env={"OUT": out}))
    ws = list(enumerate(json.loads(x) for x in open(out)))
    direct_ = [t for x in collect(c, direct, [ws[k::16] for k in range(16)], what="enumerated joins") for t in x]
    N = 12000 if T else 1000
    rand = [t for x in collect(c, worlds, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="worlds") for t in x]
    for t in rand[:: max(len(rand) // 4, 1)]:
        c.sample(dict(what=t["what"], names=t["names"], events=t["evs"][:4]))
    c.run_traces("JoinTrace", direct_, name="enumerated joins", chunk=1500)
    c.run_traces("JoinTrace", rand, name="worlds", chunk=500)
    c.extra["kinds"] = {w: sum(t["what"] == w for t in rand) for w in sorted({t["what"] for t in rand})}
    return c.finish()
