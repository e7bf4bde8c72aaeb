"""P25: assembly of loaders and collation of batches. Random loaders over real webdatasets and metadatasets with task
encoders which leave their mark on every sample; AssembleTrace.tla judges the stream of every worker of all ranks
against the stream without the task encoder. Collate.tla enumerates small batches, CollateTrace.tla judges these and
random ones, also through DefaultTaskEncoder's conversions."""

import collections
import dataclasses
import json
import os
import random
from typing import Any, NamedTuple

import torch

torch.set_num_threads(1)
import yaml

import vlib
from vlib import Check, check_model, collect, scratch
import wds
from vdata import energon
from wload import Worker, quiet, tmpdir, wconf, workers

from megatron.energon import (
    Cooker, DefaultTaskEncoder, Sample, SkipSample, TaskEncoder, TextSample, basic_sample_keys, get_train_dataset,
    get_val_dataset, get_val_datasets, stateless,
)  # fmt: skip
from megatron.energon.task_encoder.base import AugmentTaskEncoder, batch_list, batch_pad_stack, batch_stack

# ------------------------------------------------------------------ task encoders with marks


class Enough(BaseException):
    """Nothing may ever come out."""


calls = [0]


def num(s):
    calls[0] += 1
    if calls[0] > 8000:
        raise Enough()
    t = s.text if isinstance(s.text, str) else s.text[0]
    return next(int(x) for x in t.split() if x.isdigit() and int(x) >= 100) - 100


def put(s, text):
    return dataclasses.replace(s, text=text)


def step(kind, mark):
    """A function of self and sample."""

    def text(s):
        return s.text if isinstance(s.text, str) else " ".join(["B", *s.text, "b"])

    if kind == "plain":
        return stateless(lambda self, s: put(s, f"{mark} 0 {text(s)}"))
    if kind == "skip":

        @stateless
        def f(self, s):
            if num(s) % 3 == 0:
                raise SkipSample()
            return put(s, f"{mark} 0 {text(s)}")

        return f

    @stateless
    def g(self, s):
        for j in range(num(s) % 3):
            yield put(s, f"{mark} {j} {text(s)}")

    return g


@stateless
def cook(s):
    return TextSample(**basic_sample_keys(s), text="C " + s["txt"])


@stateless
def cook0(s):
    return TextSample(**basic_sample_keys(s), text=s["txt"])


def encoder(c):
    """The task encoder which c asks for."""
    b, d = (DefaultTaskEncoder if c["default"] else TaskEncoder), {}
    if c["cook"]:
        d["cookers"] = [Cooker(cook)]
    if c["enc"] != "none":
        d["encode_sample"] = step(c["enc"], "E")
    if c["pack"]:

        def select(self, l):
            o, e = [x for x in l if num(x) % 2], [x for x in l if not num(x) % 2]
            l = o + e
            return [o[k : k + 2] for k in range(0, len(o), 2)] + [e[k : k + 2] for k in range(0, len(e), 2)]

        d["select_samples_to_pack"] = select
        d["pack_selected_samples"] = stateless(lambda self, l: put(l[0], " ".join(["P", *(x.text for x in l), "p"])))
    if c["group"]:
        d["batch_group_criterion"] = lambda self, s: (num(s) % 2, None if c["bs"] else 2 if num(s) % 2 else 3)
    if c["own"]:
        d["batch"] = stateless(lambda self, l: put(l[0], " ".join(["B", *(x.text for x in l), "b"])))
    if c["eb"] != "none":
        d["encode_batch"] = step(c["eb"], "X")
    te = type("TE", (b,), d)()
    if c["augment"]:
        te = AugmentTaskEncoder(te)
    return te


def tokens(s):
    t = s.text.split() if isinstance(s.text, str) else ["B", *" ".join(s.text).split(), "b"]
    return [str(int(x) - 100) if x.isdigit() and int(x) >= 100 else x for x in t]


# ------------------------------------------------------------------ datasets

PARTS = ["train", "val", "other"]


def make(base, rng, sizes, crude, single):
    """One dataset for each of sizes; returns for each the numbers in each split."""
    out, first = [], 0
    for d, size in enumerate(sizes):
        path = os.path.join(base, f"d{d}")
        os.makedirs(path, exist_ok=True)
        shards, parts, counts = {}, {}, {}
        for p in PARTS:
            n = size if p != "other" else max(size - 1, 1)
            cut = [n] if single or n < 2 or rng.random() < 0.3 else (lambda k: [k, n - k])(rng.randint(1, n - 1))
            ids = []
            for k, m in enumerate(cut):
                nm = f"{p}{k}.tar"
                wds.write_tar(os.path.join(path, nm), [(f"s{first + j}.txt", str(100 + first + j).encode(), True) for j in range(m)])
                ids += range(first, first + m)
                first += m
                counts[nm] = m
                parts.setdefault(p, []).append(nm)
            shards[p] = ids
        alt = {"train": parts["other"], "val": parts["train"], "other": parts["val"]}
        wds.write_meta(
            path, counts, parts, dataset=wds.CRUDE if crude else None,
            extra={"alt.yaml": yaml.safe_dump({"split_parts": alt, "exclude": []}),
                   "fl.yaml": yaml.safe_dump({**(wds.CRUDE if crude else wds.TEXT), "subflavors": {"own": "1", "a": "0"}})},
        )  # fmt: skip
        out.append({"split.yaml": shards, "alt.yaml": {"train": shards["other"], "val": shards["train"], "other": shards["val"]}})
    return out


def take(b, n):
    l = []
    try:
        while len(l) < n:
            x = b.take(1)
            if not x:
                break
            l += [tokens(x[0])]
    except Enough:
        pass
    return l


def flavor(s):
    one = lambda x: x[0] if isinstance(x, list) else x
    return [one(s.__subflavor__) or "", sorted([k, v] for k, v in (one(s.__subflavors__) or {}).items())]


def assembled(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"asm/{seed}/{k}")
        n, world = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2])
        train = rng.random() < 0.5
        W = max(n, 1) * world
        nd = rng.choice([1, 1, 2, 3])
        sizes = [rng.randint(1, 10) for _ in range(nd)]
        ordered = train and rng.random() < 0.3
        if ordered:
            n, world, W, sizes = min(n, 1), 1, 1, [rng.randint(5, 12)]
            nd = 1
        while train and sum(sizes) - nd < W:
            sizes[rng.randrange(nd)] += 1
        c = dict(
            train=train, n=n, world=world, cook=rng.random() < 0.3, enc=rng.choice(["none", "plain", "plain", "skip", "gen"]),
            pack=rng.choice([0, 0, 0, 1, 2, 3, 5]), group=rng.random() < 0.25, bs=rng.choice([0, 1, 2, 3, 4]),
            drop=rng.random() < 0.4, eb=rng.choice(["none", "none", "plain", "skip", "gen"]), own=rng.random() < 0.4, default=rng.random() < 0.5,
            augment=False, limit=0, virt=0, shuf=0, m=1, want=8, only=0, one=False, cover=True, ordered=ordered,
        )  # fmt: skip
        if not c["bs"] and not c["group"]:
            # without batches their functions must not be given
            c.update(eb="none", own=False, default=False)
        if rng.random() < 0.15:
            c.update(augment=True, cook=False, pack=0, group=False, bs=c["bs"] or 2)
            c["enc"] = "plain" if c["enc"] == "gen" else c["enc"]
            c["eb"] = "plain" if c["eb"] == "gen" else c["eb"]
        split = rng.choice(["", "", "other"])
        with tmpdir() as base:
            ids = make(base, rng, sizes, c["cook"], ordered)
            kw, fl, ds, sc = {}, ["", []], [], "split.yaml"
            weights = [1] * nd
            if nd > 1 or rng.random() < 0.2:
                if train and nd > 1 and rng.random() < 0.15:
                    c["only"], c["cover"] = rng.randint(1, nd), False
                    weights[c["only"] - 1] = 10**9
                path = wds.metadataset(
                    os.path.join(base, "meta.yaml"), [{"path": f"d{d}", "weight": w} for d, w in enumerate(weights)], split=PARTS,
                    kind="blend", version=rng.choice([1, 2]),
                )  # fmt: skip
                if rng.random() < 0.3:
                    fl = ["", [["a", "9"]]]
                    kw["subflavors"] = {"a": "9"}
            else:
                path = os.path.join(base, "d0")
                if rng.random() < 0.4:
                    sc = kw["split_config"] = "alt.yaml"
                if rng.random() < 0.4:
                    kw["subflavor"] = fl[0] = "f"
                if rng.random() < 0.4:
                    kw["subflavors"] = {"a": "9"}
                    fl[1] = [["a", "9"]]
                if rng.random() < 0.4:
                    kw["dataset_config"] = "fl.yaml"
                    fl[1] = [["a", "9" if "subflavors" in kw else "0"], ["own", "1"]]
            D = [x[sc][split or ("train" if train else "val")] for x in ids]
            if split:
                kw["split_part"] = split
            basic = type("Basic", (TaskEncoder,), {"cookers": [Cooker(cook0)] if c["cook"] else []})()
            own = dict(batch_size=c["bs"] or None, batch_drop_last=c["drop"], packing_buffer_size=c["pack"] or None, task_encoder=encoder(c))
            kinds = [None]
            if train:
                # What does not change the stream of samples
                if rng.random() < 0.3:
                    own["virtual_epoch_length"] = c["virt"] = rng.randint(1, 6)
                if rng.random() < (0.6 if ordered else 0.25):
                    c["shuf"] = rng.choice([0, 1, 2, 4, 5, 7])
                if rng.random() < 0.3:
                    kw["shuffle_over_epochs_multiplier"] = c["m"] = 2
                kw["max_samples_per_sequence"] = rng.choice([None, None, None if ordered else 3])
                if c["m"] > 1 or rng.random() < 0.1:
                    kw["parallel_shard_iters"] = 1
                if c["m"] > 1 and not ordered and rng.random() < 0.8:
                    kw["max_samples_per_sequence"], c["one"] = 1, True
                kw["shuffle_buffer_size"] = c["shuf"] or None
                get = get_train_dataset
            else:
                if rng.random() < 0.5:
                    own["limit"] = c["limit"] = rng.randint(1, 7)
                many = rng.random() < 0.4
                get = get_val_datasets if many else get_val_dataset
                if many:
                    kinds = list(range(nd))
            for kind in kinds:
                T = dict(name=f"a{k}", c=c, D=D if kind is None else [D[kind]], w=[], fl=[fl, fl], ds=[[], []])
                for r in range(world):
                    with quiet():
                        one = get(path, worker_config=wconf(n, r, world), batch_size=None, task_encoder=basic, **kw)
                        two = get(path, worker_config=wconf(n, r, world), **own, **kw)
                    if kind is not None:
                        T["ds"] = [[f"d{d}" for d in range(nd)], [os.path.basename(str(f.path)) for _, f in two]]
                        if len(one) <= kind or len(two) <= kind:
                            T["ds"][1] = T["ds"][1] + ["none"] if len(two) == nd else T["ds"][1]
                            break
                        one, two = one[kind][0], two[kind][0]
                    for w, (a, b) in enumerate(zip(workers(one), workers(two))):
                        l = a.take(240 if train else None)
                        eps, calls[0] = [], 0
                        if not train or c["virt"]:
                            for _ in range(2 + (k % 2)):
                                eps.append(take(b, 10**9))
                        else:
                            eps.append(take(b, c["want"]))
                        if calls[0] > 8000:
                            c["want"] = c["virt"] = 0
                        calls[0] = 0
                        bad = [flavor(s) for s in l if flavor(s) != fl]
                        if bad:
                            T["fl"] = [fl, bad[0]]
                        T["w"].append(dict(w=w, base=[num(s) for s in l], eps=eps))
                out.append(T)
    return out


# ------------------------------------------------------------------ collation


@dataclasses.dataclass
class A:
    a: Any
    b: Any


@dataclasses.dataclass
class B:
    b: Any
    a: Any
    c: Any


class N(NamedTuple):
    a: Any
    b: Any


@dataclasses.dataclass
class S(Sample):
    a: Any
    b: Any


CLS = dict(A=A, B=B, N=N, S=S)
FIELDS = {n: list(c._fields) if n == "N" else [f.name for f in dataclasses.fields(c)] for n, c in CLS.items()}
DT = {"int": torch.int64, "float": torch.float32, "bool": torch.bool}


def real(v):
    if v["k"] == "t":
        return (torch.tensor(v["v"], dtype=torch.float64).reshape(v["s"]) / 2).to(DT[v["d"]])
    if v["k"] == "x":
        return None if v["v"] == "None" else v["v"]
    if v["k"] == "l":
        return [real(x) for x in v["l"]]
    e = {x["n"]: real(x["v"]) for x in v["e"]}
    return e if v["k"] == "d" else CLS[v["n"]](**e)


def enc(x):
    if isinstance(x, torch.Tensor):
        d = next((n for n, t in DT.items() if t == x.dtype), str(x.dtype))
        return dict(k="t", d=d, s=list(x.shape), v=[round(y * 2) for y in x.to(torch.float64).reshape(-1).tolist()])
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return dict(k="c", n=type(x).__name__, e=[dict(n=n, v=enc(getattr(x, n))) for n in x._fields])
    if isinstance(x, (list, tuple)):
        return dict(k="l", l=[enc(y) for y in x])
    if isinstance(x, dict):
        return dict(k="d", e=[dict(n=n, v=enc(y)) for n, y in x.items()])
    if dataclasses.is_dataclass(x):
        return dict(k="c", n=type(x).__name__, e=[dict(n=f.name, v=enc(getattr(x, f.name))) for f in dataclasses.fields(x)])
    return dict(k="x", v=str(x))


def event(e, fn, **k):
    ev = dict(e=e, ok=False, v=dict(k="bad"), **k)
    try:
        ev["v"] = enc(fn())
        ev["ok"] = True
    except Exception as ex:
        ev["why"] = f"{type(ex).__name__}: {ex}"[:150]
    return ev


def pads(rows):
    out = []
    for a in range(0, len(rows), 40):
        evs = []
        for k, l in rows[a : a + 40]:
            fn = (lambda: batch_pad_stack([real(x) for x in l])) if k % 2 else (lambda: TaskEncoder()._batch([{"a": real(x)} for x in l], dict)["a"])
            evs.append(event("pad", fn, l=l))
        out.append(dict(name=f"pad{rows[a][0]}", F=FIELDS, evs=evs))
    return out


def rtensor(rng, shape=None, d=None):
    s = shape or [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
    d = d or rng.choice(["int", "float", "bool", "int"])
    n = 1
    for x in s:
        n *= x
    return dict(k="t", d=d, s=s, v=[2 * rng.randint(0, 1) if d == "bool" else rng.randint(-9, 9) * (2 if d == "int" else 1) for _ in range(n)])


def maker(rng, depth=0):
    """Makes values of one kind."""
    r = rng.random()
    if r < 0.25 and depth < 2:
        kind = rng.choice(["d", "d", "A", "B", "N"])
        names = FIELDS.get(kind) or sorted(rng.sample("abcd", rng.randint(1, 3)))
        ms = [maker(rng, depth + 1) for _ in names]
        return lambda: dict(k="d" if kind == "d" else "c", **({} if kind == "d" else dict(n=kind)), e=[dict(n=n, v=m()) for n, m in zip(names, ms)])
    if r < 0.65:
        nd, d = rng.randint(0, 3), rng.choice(["int", "float", "bool"])
        fixed = [rng.randint(0, 3) for _ in range(nd)] if rng.random() < 0.3 else None
        mixed = rng.random() < 0.2
        return lambda: rtensor(rng, list(fixed) if fixed is not None else [rng.randint(0, 3) for _ in range(nd)], None if mixed else d)
    if r < 0.75:
        return lambda: dict(k="l", l=[dict(k="x", v=rng.choice("pqr")) for _ in range(rng.randint(0, 2))])
    return lambda: dict(k="x", v=rng.choice(["p", "q", "None"]))


def sample_maker(rng, kind):
    fs = FIELDS.get(kind) or ["a", "b"]
    ms = {n: maker(rng) for n in fs if not n.startswith("__")}
    x = lambda v: dict(k="x", v=v)
    own = {
        "__key__": lambda: x("k" + rng.choice("12")), "__restore_key__": lambda: dict(k="l", l=[x("r")]), "__subflavor__": lambda: x(rng.choice(["None", "f"])),
        "__subflavors__": lambda: rng.choice([x("None"), dict(k="d", e=[dict(n="s", v=x("t"))])]),
    }  # fmt: skip
    return lambda: dict(k="d" if kind == "dict" else "c", **({} if kind == "dict" else dict(n=kind)), e=[dict(n=n, v=(ms.get(n) or own[n])()) for n in fs])


ACTS = {"stack": batch_stack, "list": batch_list, "pad": batch_pad_stack}


def batches(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"col/{seed}/{k}")
        evs = []
        for _ in range(20):
            n, r = rng.randint(1, 4), rng.random()
            if r < 0.3:
                m = maker(rng)
                l = [m() for _ in range(n)]
                if rng.random() < 0.1:
                    l[rng.randrange(n)] = maker(rng)()
                if l[0]["k"] in "cd":
                    fn = lambda: TaskEncoder()._batch([{"q": real(x)} for x in l], dict)["q"]
                else:
                    fn = lambda: TaskEncoder()._batch([A(real(x), 0) for x in l], A).a
                evs.append(event("gen", fn, l=l))
                continue
            kind = rng.choice(["dict", "A", "B", "N", "S"])
            m = sample_maker(rng, kind)
            l = [m() for _ in range(n)]
            ty = lambda p: rng.choice(["", "", "dict", kind, rng.choice(["A", "N", "B", "S"]) if rng.random() < p else kind])
            cls = lambda t: None if t == "" else dict if t == "dict" else CLS[t]
            if r < 0.6:
                acts = [[f, rng.choice(list(ACTS))] for f in (FIELDS.get(kind) or ["a", "b"]) if rng.random() < 0.3]
                if rng.random() < 0.2:
                    acts.append(["unknown", "list"])
                t = ty(0.4)
                evs.append(event(
                    "batch", lambda: TaskEncoder()._batch([real(x) for x in l], cls(t) or cls(kind), actions={f: ACTS[x] for f, x in acts} if acts or rng.random() < 0.5 else None),
                    l=l, acts=acts, t=t,
                ))  # fmt: skip
            else:
                e, w, b = ty(0.5), ty(0.4), ty(0.4)

                def fn():
                    te = DefaultTaskEncoder(encoded_sample_type=cls(e), raw_batch_type=cls(w), batch_type=cls(b))
                    return te.encode_batch(te.batch([te.encode_sample(real(x)) for x in l]))

                evs.append(event("default", fn, l=l, enc=e, raw=w, bt=b))
        out.append(dict(name=f"col{k}", F=FIELDS, evs=evs))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o = scratch("batches.json")
    cfg = f"SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxLen = {4 if T else 3}\nMaxDim = 2\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"
    if T:
        cfg = cfg.replace("MaxLen = 4", "MaxLen = 3").replace("MaxDim = 2", "MaxDim = 3")
    c.add_model("Collate", check_model("Collate", cfg, env={"OUT": o}))
    rows = [(k, json.loads(x)["l"]) for k, x in enumerate(open(o))]
    step = max(len(rows) // (60000 if T else 3000), 1)
    rows = rows[vlib.SEED % step :: step]
    ps = [x for r in collect(c, pads, [rows[k::8] for k in range(8)], what="tensors", timeout=600) for x in r]
    M = 3000 if T else 240
    bs = [x for r in collect(c, batches, [(vlib.SEED, k, k + 10) for k in range(0, M, 10)], what="batches", timeout=600) for x in r]
    c.run_traces("CollateTrace", ps, name="tensors")
    c.run_traces("CollateTrace", bs, name="batches", chunk=1000)
    N = 6000 if T else 500
    st = [x for r in collect(c, assembled, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="loaders", timeout=600) for x in r]
    for x in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(c=x["c"], D=x["D"], w=[dict(w=y["w"], base=y["base"][:10], eps=y["eps"][:1]) for y in x["w"][:2]]))
    c.run_traces("AssembleTrace", st, name="loaders")
    return c.finish()
