"""P21: cooking. Cook.tla enumerates cookers and samples of a small domain, which are given to the real
encoder one by one; datasets of several kinds on disk run through complete loaders. CookTrace.tla
judges which cooker got each sample and what was delivered."""

import dataclasses
import itertools
import json
import os
import random

import vlib
import wds
from vlib import Check, check_model, collect, scratch
from engine import Run, wconf
from full import canon
from vdata import energon
from vloader import Eager, Lazy, virtualize
from wload import quiet, tmpdir

from megatron.energon import (
    Cooker, CrudeSample, DefaultTaskEncoder, Sample, SkipSample, TaskEncoder, basic_sample_keys, get_savable_loader,
    get_train_dataset, get_val_dataset, stateless,
)  # fmt: skip


@dataclasses.dataclass
class Cooked(Sample):
    by: int = 0
    seen: dict = None


def number(crude):
    return int(crude["__key__"].rsplit("/s", 1)[1])


def value(x):
    """The values of subflavors are any objects."""
    return {"None": None, "0": 0}.get(x, x)


def subdict(ps):
    return {k: value(v) for k, v in ps}


def mk_cookers(cs, skip=(), fail=()):
    def one(j, c):
        def cook(sample):
            v = number(sample)
            if v in skip:
                raise SkipSample()
            if v in fail:
                raise ValueError("injected")
            return Cooked(**basic_sample_keys(sample), by=j, seen={k: canon(x) for k, x in sample.items() if not k.startswith("__")})

        kw = {}
        if c["sub"]:
            kw["is_subflavor"] = c["sub"]
        if c["has"]:
            kw["has_subflavors"] = subdict(c["has"])
        elif c.get("empty"):
            kw["has_subflavors"] = {}
        if not c["all"]:
            kw["condition"] = lambda s: number(s) in c["cond"]
        return Cooker(cook, **kw)

    return [one(j, c) for j, c in enumerate(cs, 1)]


def ev(e, i=0, by=0, sub="", subs=(), keys=True):
    return dict(e=e, i=i, by=by, sub=sub or "", subs=[list(x) for x in subs], keys=keys)


def pairs(d):
    return [[k, str(v)] for k, v in (d or {}).items()]


# --------------------------------------------------------------------------------------------


def direct(a):
    part, samples = a
    out = []
    for k, cs in part:
        enc = type("E", (DefaultTaskEncoder if k % 2 else TaskEncoder,), {"cookers": mk_cookers(cs)})()
        evs, src = [], []
        for i, s in enumerate(samples):
            base = dict(__key__=f"x/s{s['id']}", __restore_key__=("r", i), __subflavor__=s["sub"], __subflavors__=subdict(s["subs"]))
            src.append(s)
            if s["crude"]:
                x = CrudeSample(base, txt=b"t")
            else:
                x = energon.TextSample(**base, text="t")
            try:
                y = enc.cook_crude_sample(x)
            except SkipSample:
                evs.append(ev("d", s["id"], -2))
                continue
            except Exception:
                evs.append(ev("x", s["id"]))
                continue
            if isinstance(y, Cooked):
                evs.append(ev("d", s["id"], y.by, y.__subflavor__, pairs(y.__subflavors__), y.__key__ == base["__key__"] and y.__restore_key__ == base["__restore_key__"] and y.seen == {"txt": canon(b"t")}))
            else:
                same = y is x and not s["crude"]
                evs.append(ev("d", s["id"], 0, s["sub"], s["subs"], same))
        out.append(dict(name=f"direct{k}", direct=True, cookers=cs, src=src, skip=[], evs=evs))
    return out


def random_cookers(rng, ids, k):
    cs = []
    for _ in range(k):
        all_ = rng.random() < 0.6
        cs.append(dict(
            sub=rng.choice(["", "", "s", "t", "st"]), has=rng.choice([[], [], [["a", "1"]], [["a", "2"]], [["b", "1"]], [["a", "1"], ["b", "1"]], [["b", "None"]], [["a", "None"]], [["a", "0"]], [["c", ""]]]),
            cond=[] if all_ else rng.sample(ids, rng.randint(0, len(ids))), all=all_, empty=rng.random() < 0.3,
        ))  # fmt: skip
    return cs


def streams(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p21/{k}")
        with tmpdir() as d, quiet():
            train = rng.random() < 0.5
            n = rng.choice([0, 0, 1, 2]) if train else 0
            blend, src, texts, keys = [], [], {}, {}
            for j in range(rng.randint(1, 3)):
                crude = rng.random() < 0.75
                first = 100 * j
                cnt = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
                while sum(cnt) < max(n, 1):
                    cnt[0] += 1
                path = os.path.join(d, f"ds{j}")
                os.makedirs(path)
                names = [f"shard{x}.tar" for x in range(len(cnt))]
                inner = rng.choice([{}, {}, {"a": "1"}, {"b": "1"}, {"b": None}])
                ds = dict(wds.CRUDE if crude else wds.TEXT)
                if inner:
                    ds["subflavors"] = inner
                i = first
                for nm, c in zip(names, cnt):
                    ents = []
                    for x in range(i, i + c):
                        keys[x] = f"{nm}/s{x}"
                        ents.append((f"s{x}.txt", f"t{x}".encode(), True))
                        ents.append((f"s{x}.json", json.dumps({"v": x}).encode(), False))
                    wds.write_tar(os.path.join(path, nm), ents)
                    i += c
                wds.write_meta(path, dict(zip(names, cnt)), {"train": names, "val": names}, dataset=ds)
                e = dict(path=f"ds{j}")
                sub, subs = rng.choice([None, "s", "t"]), rng.choice([None, {"a": "1"}, {"a": "2"}, {"a": "1", "b": "1"}, {"c": "1"}, {"a": None}, {"a": 0}, {"c": ""}])
                if sub:
                    e["subflavor"] = sub
                if subs:
                    e["subflavors"] = subs
                blend.append(e)
                full = {**inner, **(subs or {})}
                for x in range(first, i):
                    src.append(dict(crude=crude, sub=sub or "", subs=pairs(full), id=x))
            ids = [s["id"] for s in src]
            cs = random_cookers(rng, ids, rng.choice([1, 2, 2, 3, 4]))
            if train and not any(not c["sub"] and not c["has"] and c["all"] for c in cs):
                # every source must have something to deliver
                cs.append(dict(sub="", has=[], cond=[], all=True))
            skip = rng.sample(ids, min(len(ids) - 1, rng.choice([0, 0, 1]))) if not train else []
            fail = rng.sample(ids, min(len(ids) - 1, rng.choice([0, 0, 1]))) if not train else []
            ns = {"cookers": mk_cookers(cs, skip, fail)}
            if rng.random() < 0.3:
                ns["encode_sample"] = stateless(lambda self, s: s)
            meta = os.path.join(d, "meta.yaml")
            wds.metadataset(meta, blend, split=["train", "val"], version=rng.choice([1, 2]))
            wc = wconf(n)
            enc = type("E", (TaskEncoder,), ns)()
            if train:
                ds = get_train_dataset(meta, worker_config=wc, task_encoder=enc, batch_size=None, shuffle_buffer_size=rng.choice([None, 3]), max_samples_per_sequence=rng.choice([None, 2]), virtual_epoch_length=0)
            else:
                ds = get_val_dataset(meta, worker_config=wc, task_encoder=enc, batch_size=None)
            loader = virtualize(get_savable_loader(ds, worker_config=wc), Lazy()) if n else get_savable_loader(ds, worker_config=wc)
            evs = []

            def one(e, s):
                if isinstance(s, Cooked):
                    x = number({"__key__": s.__key__})
                    ok = s.__key__ == keys[x] and sorted(s.seen) == ["json", "txt"] and s.seen["json"] == canon({"v": x}) and s.seen["txt"] in (f"t{x}", f"t{x}".encode())
                    by = s.by
                elif isinstance(s, energon.TextSample):
                    x = number({"__key__": s.__key__})
                    ok, by = s.__key__ == keys[x] and s.text == f"t{x}", 0
                else:
                    return ev(e, number(s), -3)
                return ev(e, x, by, s.__subflavor__, pairs(s.__subflavors__), ok)

            got = []
            if train:
                it = iter(loader)
                got = [next(it) for _ in range(15)]
                evs += [one("k", s) for s in got]
            else:
                for _ in range(2):
                    for s in loader:
                        got.append(s)
                        evs.append(one("d", s))
                    evs.append(ev("e"))
            for s in rng.sample(got, min(len(got), 4)):
                y = loader.restore_sample(s.__restore_key__)
                e = one("k", y)
                e["keys"] = e["keys"] and canon(y) == canon(s)
                evs.append(e)
            if n:
                from vloader import shutdown

                shutdown(loader)
            out.append(dict(name=f"stream{k}", direct=False, cookers=cs, src=src, skip=skip + fail, evs=evs))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o1, o2 = scratch("cookers.json"), scratch("csamples.json")
    cfg = f"SPECIFICATION Spec\nCONSTANTS MaxCookers = {2}\nEmit = TRUE\nINVARIANTS Right Alone\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Cook", check_model("Cook", cfg, env={"OUT": o1, "OUT2": o2}))
    cookers = [json.loads(x) for x in open(o1)]
    samples = [json.loads(x) for x in open(o2)]
    lists = [list(x) for k in range(3) for x in itertools.product(cookers, repeat=k)]
    lists += [[c.rng.choice(cookers) for _ in range(c.rng.choice([3, 4, 5]))] for _ in range(20000 if T else 1500)]
    lists = list(enumerate(lists))
    traces = [t for x in collect(c, direct, [(lists[k::32], samples) for k in range(32)], what="cases") for t in x]
    N = 6000 if T else 500
    st = [t for x in collect(c, streams, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="streams") for t in x]
    for t in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(cookers=t["cookers"], samples=t["src"][:3], events=t["evs"][:5]))
    c.run_traces("CookTrace", traces, name="cases", chunk=3000)
    c.run_traces("CookTrace", st, name="streams", chunk=3000)
    return c.finish()
