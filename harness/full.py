"""Random complete pipelines: (meta)datasets on disk, the assembly of a task encoder and a loader."""

import dataclasses
import os
import random
import re
import time
import zlib
from typing import Any

import numpy as np
import torch
import yaml

import wds
from engine import Run, wconf
from vdata import energon
from vloader import Lazy, virtualize
from wload import quiet

from megatron.energon import (
    Cooker,
    DefaultTaskEncoder,
    Sample,
    SkipSample,
    TaskEncoder,
    basic_sample_keys,
    get_loader,
    get_savable_loader,
    get_train_dataset,
    get_val_dataset,
    stateless,
)


@dataclasses.dataclass
class FSample(Sample):
    val: Any = None
    aug: Any = None


def canon(x):
    """The observable contents as plain values."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), x.tolist())
    if isinstance(x, np.ndarray):
        return ("A", str(x.dtype), x.tolist())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__,) + tuple((f.name, canon(getattr(x, f.name))) for f in dataclasses.fields(x))
    if isinstance(x, dict):
        return ("D",) + tuple((str(k), canon(v)) for k, v in x.items())
    if isinstance(x, (tuple, list)) and len(x) > 2 and isinstance(x[0], str) and x[0] in ("SavableDatasetWrapper", "SimpleSavableDatasetWrapper"):
        # restore keys start with the kind of the loader
        x = ("W", *x[1:])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if hasattr(x, "_fields") else "L",) + tuple(canon(v) for v in x)
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return x
    return type(x).__name__


def keys_of(s):
    k = s.get("__key__") if isinstance(s, dict) else getattr(s, "__key__", None)
    out = []

    def walk(k):
        if isinstance(k, str):
            out.extend(int(m) for m in re.findall(r"/s(\d+)", k))
        elif isinstance(k, (list, tuple)):
            for x in k:
                walk(x)

    walk(k)
    return out


def digest(s):
    """Readable sample numbers, and a checksum of everything."""
    return tuple(keys_of(s)) + (-5, zlib.crc32(repr(canon(s)).encode()) & 0x7FFFFFFF)


def rnd():
    # also the normal distributions, whose generators keep the second half of a pair
    np.random.random(29)
    return [
        random.randrange(10**6), int(np.random.randint(10**6)), int(torch.randint(10**6, ())),
        int(random.gauss(0, 1) * 1e6), int(np.random.standard_normal() * 1e6), int(torch.randn(()) * 1e6),
    ]  # fmt: skip


def num(s):
    return int(s.text[1:])


def cook(sample):
    return energon.TextSample(**basic_sample_keys(sample), text=sample["txt"].decode() if isinstance(sample["txt"], bytes) else sample["txt"])


def cook2(sample):
    return energon.TextSample(**basic_sample_keys(sample), text=cook(sample).text + "")


def mk_encoder(o):
    """A task encoder class with the steps which the options ask for."""
    ns = {}
    base = TaskEncoder if o["batch"] is None or o["plainbase"] else DefaultTaskEncoder
    if o["cook"]:
        ns["cookers"] = [Cooker(cook2, has_subflavors={"c": "x"}), Cooker(cook)]
    skip, fail = set(o["skip"]), set(o["fail"])

    def pre(s):
        v = num(s)
        if o.get("sleep"):
            time.sleep(o["sleep"] * ((v * 7 + os.getpid()) % 5))
        if v in skip:
            raise SkipSample()
        if v in fail:
            raise ValueError("injected")
        return v

    def enc(src, **kw):
        return FSample(**{f: getattr(src, f) for f in ("__key__", "__restore_key__", "__subflavor__", "__subflavors__")}, **kw)

    if o["encode"] == "plain":

        def encode_sample(self, s):
            v = pre(s)
            return enc(s, val=(v,), aug=(rnd(), self.current_sample_index))

        ns["encode_sample"] = stateless(restore_seeds=True)(encode_sample)
    elif o["encode"] == "index":

        def encode_sample(self, s):
            v = pre(s)
            return enc(s, val=(v,), aug=(self.current_sample_index,))

        ns["encode_sample"] = stateless(encode_sample)
    elif o["encode"] == "global":

        # the random generators of the worker process, without any declaration
        def encode_sample(self, s):
            v = pre(s)
            return enc(s, val=(v,), aug=(rnd(), self.current_sample_index))

        ns["encode_sample"] = encode_sample
    elif o["encode"] == "gen":

        def encode_sample(self, s):
            v = pre(s)
            for j in range(1 + v % o["gen"]):
                yield enc(s, val=(v, j), aug=(rnd(), self.current_sample_index))

        ns["encode_sample"] = stateless(restore_seeds=True)(encode_sample)
    val = lambda s: getattr(s, "val", None) or (num(s),)
    if o["pack"] is not None:
        k = o["packsize"]

        def select_samples_to_pack(self, samples):
            ss = samples[::-1] if o["rev"] else list(samples)
            return [ss[i : i + k] for i in range(0, len(ss), k)]

        ns["select_samples_to_pack"] = select_samples_to_pack

        def packed(self, ss, j):
            return FSample(
                __key__=",".join(s.__key__ for s in ss), __restore_key__=(), __subflavor__=None, __subflavors__=ss[0].__subflavors__,
                val=tuple(x for s in ss for x in val(s)), aug=(tuple(getattr(s, "aug", None) for s in ss), rnd() if o["seeds"] else 0, self.current_sample_index, j),
            )  # fmt: skip

        if o["packgen"]:

            def pack_selected_samples(self, ss):
                for j in range(2):
                    yield packed(self, ss, j)
        else:

            def pack_selected_samples(self, ss):
                return packed(self, ss, 0)

        ns["pack_selected_samples"] = (stateless(restore_seeds=True) if o["seeds"] else stateless)(pack_selected_samples)
    if o["group"]:
        mod = o["group"]

        def batch_group_criterion(self, s):
            k = val(s)[0] % mod
            return ("zero", "one", ("two", 2))[k], (None if o["batch"] else 1 + k)

        ns["batch_group_criterion"] = batch_group_criterion
    if o["batch"] is not None or o["group"]:
        if o["batcher"] == "own":

            def batch(self, ss):
                return FSample(
                    __key__=[s.__key__ for s in ss], __restore_key__=(), __subflavor__=None, __subflavors__=[s.__subflavors__ for s in ss],
                    val=[val(s) for s in ss], aug=([getattr(s, "aug", None) for s in ss], rnd() if o["seeds"] else 0, self.current_sample_index, self.current_batch_index if o["bidx"] else 0),
                )  # fmt: skip

            ns["batch"] = (stateless(restore_seeds=True) if o["seeds"] else stateless)(batch)
        if o["encb"] == "plain":

            def encode_batch(self, b):
                return dict(__key__=b.__key__, __restore_key__=b.__restore_key__, b=b, r=rnd(), i=self.current_sample_index)

            ns["encode_batch"] = stateless(restore_seeds=True)(encode_batch)
        elif o["encb"] == "gen":

            def encode_batch(self, b):
                for j in range(2):
                    yield dict(__key__=b.__key__, __restore_key__=b.__restore_key__, b=b, r=rnd(), j=j)

            ns["encode_batch"] = stateless(restore_seeds=True)(encode_batch)
    return type("Enc", (base,), ns)()


class Full:
    """One random configuration; its data are written below d."""

    def __init__(self, rng, d, *, n=None, world=None, train=None, errors=True, rank=None, mode=None, exclude=True):
        r = rng
        self.dir = d
        self.n = r.choice([0, 0, 1, 2, 2, 3]) if n is None else n
        self.world = r.choice([1, 1, 2, 3]) if world is None else world
        self.rank = r.randrange(self.world) if rank is None else rank
        self.seed = r.choice([0, 0, 1, 5])
        self.W = max(self.n, 1) * self.world
        self.train = (r.random() < 0.8) if train is None else train
        k = r.choice([1, 1, 2, 3])
        self.crude = r.random() < 0.3
        blend = []
        self.ids = []
        for j in range(k):
            shards = r.randint(1, 4)
            counts = [r.randint(1, 6) for _ in range(shards)]
            if j == 0 or r.random() < 0.8:
                while sum(counts) < 2 * self.W:
                    counts[r.randrange(shards)] += r.randint(1, 3)
            first = 1000 * j
            ids = range(first, first + sum(counts))
            names = [f"shard_{x:03d}.tar" for x in range(shards)]
            ex = []
            if exclude and r.random() < 0.25 and len(ids) > 4 * self.W:
                i = r.choice(ids)
                acc = first
                for nm, c in zip(names, counts):
                    if acc <= i < acc + c:
                        ex = [f"{nm}/s{i:06d}"]
                    acc += c
            ds = wds.CRUDE if self.crude else wds.TEXT
            wds.text_dataset(os.path.join(d, f"ds{j}"), counts, tag="abc"[j], first=first, dataset=ds, exclude=ex)
            e = dict(path=f"ds{j}", subflavors={"c": r.choice("xy"), "d": j})
            if self.train:
                e["weight"] = r.choice([0.5, 1, 1, 2, 3]) if j == 0 else r.choice([0, 0.5, 1, 1, 2, 3])
                if r.random() < 0.2:
                    e["shuffle_over_epochs_multiplier"] = r.choice([2, 3])
            blend.append(e)
            self.ids.append(list(ids))
        if k == 1 and r.random() < 0.6:
            self.path = os.path.join(d, "ds0")
        else:
            self.path = os.path.join(d, "meta.yaml")
            wds.metadataset(self.path, blend, split=["train", "val"])
        self.blend = k if os.path.isfile(self.path) else 0
        grp = r.random() < 0.25
        bs = r.choice([None, 1, 2, 3, 4]) if not grp else r.choice([None, 1, 2, 3])
        o = self.o = dict(
            cook=self.crude, encode=r.choice([None, "plain", "plain", "gen", "index"]), gen=r.choice([2, 3]),
            pack=r.choice([None, None, 1, 3, 5]), packsize=r.randint(1, 3), rev=r.random() < 0.4, packgen=r.random() < 0.3,
            group=r.choice([2, 3]) if grp else 0, batch=bs, batcher=r.choice(["own", "default"]),
            encb=r.choice([None, None, "plain", "gen"]), seeds=r.random() < 0.7, skip=[], fail=[], bidx=r.random() < 0.5,
            plainbase=r.random() < 0.3,
        )  # fmt: skip
        if bs is None and grp:
            o["batcher"] = "own"
        if o["encb"] == "gen":
            # several deliveries per call
            o["bidx"] = False
        if self.n and bs is None and o["pack"] is None and not grp and r.random() < 0.5:
            o["encode"] = "global"
        if errors and o["encode"] and len(self.ids[0]) > 3 * self.W and r.random() < 0.5:
            for key in ("skip", "fail"):
                for ids in self.ids:
                    if r.random() < 0.5:
                        o[key].append(r.choice(ids))
            if len(o["skip"]) + len(o["fail"]) > 3:
                o["fail"] = []
        if self.train:
            self.kw = dict(
                batch_size=bs, batch_drop_last=r.random() < 0.3, packing_buffer_size=o["pack"],
                shuffle_buffer_size=r.choice([None, 1, 2, 3, 5, 20]), max_samples_per_sequence=r.choice([None, 1, 2, 3, 4]),
                virtual_epoch_length=r.choice([0, 0, 1, 3, 5, 8]), shuffle_over_epochs_multiplier=r.choice([1, 1, 2, 3, -1]),
                parallel_shard_iters=r.choice([1, 2, 3, 16]),
            )  # fmt: skip
            if any("shuffle_over_epochs_multiplier" in e for e in blend):
                # shuffling over infinitely many epochs cannot be multiplied
                self.kw["shuffle_over_epochs_multiplier"] = abs(self.kw["shuffle_over_epochs_multiplier"])
            self.fin = self.kw["virtual_epoch_length"] > 0
        else:
            self.kw = dict(
                batch_size=bs, batch_drop_last=r.random() < 0.2, packing_buffer_size=o["pack"], limit=r.choice([None, None, 1, 2, 4])
            )
            self.fin = True

    def dataset(self, *, n=None, rank=None, world=None, seed=None, wc=None):
        wc = wc or wconf(self.n if n is None else n, self.rank if rank is None else rank, self.world if world is None else world, self.seed if seed is None else seed)
        fn = get_train_dataset if self.train else get_val_dataset
        with quiet():
            return wc, fn(self.path, worker_config=wc, task_encoder=mk_encoder(self.o), **self.kw)

    def describe(self):
        return dict(
            n=self.n, rank=self.rank, world=self.world, seed=self.seed, train=self.train, crude=self.crude, blend=self.blend,
            sizes=[len(x) for x in self.ids], opts={k: v for k, v in self.o.items() if v}, kw={k: v for k, v in self.kw.items() if v},
        )  # fmt: skip


class FullRun(Run):
    """A real loader for the configuration."""

    def __init__(self, cfg, *, sched=None, ck=0, prefetch=None, basic=False, real=False, ck_sec=-1, **over):
        self.cfg = cfg
        self.wc, self.ds = cfg.dataset(**over)
        self.n = self.wc.num_workers
        kw = {}
        if self.n > 0:
            kw = dict(checkpoint_every_sec=ck_sec, checkpoint_every_min_n_samples=ck or None)
        with quiet():
            self.loader = get_loader(self.ds) if basic else get_savable_loader(self.ds, **kw)
            if not real:
                virtualize(self.loader, sched or Lazy())
            if prefetch:
                self.loader.prefetch_factor = prefetch
        self.it = None
        self.dead = False
        self.samples = []

    def shape(self, s):
        return (getattr(self.loader, "_vlast", 0) if self.n else 0, digest(s))


def full_entry(tok):
    if tok == "E":
        return {"w": -1, "v": []}
    if tok == "X":
        return {"w": -1, "v": [-97]}
    return {"w": tok[0], "v": list(tok[1])}
