"""P17: metadatasets. Small trees with all settings at three places (enumerated by TLC from Meta.tla) and random
worlds of datasets and metadataset files of both versions are loaded by the real code. MetaTrace.tla judges which
datasets come out, with which weights, settings and samples."""

import copy
import json
import os
import random
import sys
import types
from fractions import Fraction
from pathlib import Path

import yaml

import vlib
from vlib import Check, check_model, collect, scratch
import wds
from vdata import energon
from wload import Worker, quiet, tmpdir, wconf, workers

from megatron.energon import Sample
from megatron.energon.epathlib import EPath
from megatron.energon.metadataset.loader import load_dataset


class Cols(Sample):
    def __init__(self, cols):
        self.__key__, self.__restore_key__ = "k", ()
        self.__subflavor__ = self.__subflavors__ = None
        self.cols = cols

    @classmethod
    def from_joined(cls, *a, **k):
        return cls(list(a) + [k[n] for n in sorted(k)])


mod = types.ModuleType("verif_p17")
mod.Cols = Cols
mod.join = Cols.from_joined
sys.modules["verif_p17"] = mod


# ------------------------------------------------------------------ the world on disk


def make_sets(base, sets):
    for S in sets:
        d = os.path.join(base, *S["p"])
        os.makedirs(d, exist_ok=True)
        for k in range(4):
            wds.write_tar(os.path.join(d, f"s{k}.tar"), [(f"s{n}.txt", f"{'/'.join(S['p'])}|{k}|{n}".encode(), True) for n in range(2)])
        extra = {}
        for c in S["d"]:
            extra[c["n"]] = yaml.safe_dump({**wds.TEXT, **({"subflavors": dict(c["flavors"])} if c["flavors"] else {})})
        for c in S["s"]:
            extra[c["n"]] = yaml.safe_dump({"split_parts": {x["n"]: [f"s{x['shard']}.tar"] for x in c["parts"]}, "exclude": []})
        wds.write_meta(d, {f"s{k}.tar": 2 for k in range(4)}, {}, extra=extra)


def settings(e, rng):
    d = {}
    if e["split"]:
        d["split_part"] = e["split"]
    if e["flavor"]:
        d["subflavor"] = e["flavor"]
    if e["flavors"]:
        d["subflavors"] = dict(map(tuple, e["flavors"]))
    if e["m"] != 1 or rng.random() < 0.2:
        d["shuffle_over_epochs_multiplier"] = e["m"]
    if e.get("d"):
        d["dataset_config"] = e["d"]
    if e["s"]:
        d["split_config"] = e["s"]
    return d


def ref(e, base, rng, dirs, w=None):
    p = "/".join(e["p"]["parts"])
    if e["p"]["abs"]:
        p = base + "/" + p
    elif dirs is not None:
        p = dirs + p
    d = {"path": p, **settings(e, rng)}
    return d


def entry(e, v, base, rng, dirs):
    if e["k"] == "blend":
        scale = rng.choice([1, 1, 0.5, 0.1, 10])
        l = []
        for x in e["l"]:
            y = entry(x, v, base, rng, dirs)
            w = x["w"] * scale
            if w != 1 or rng.random() < 0.3:
                y["weight"] = w
            l.append(y)
        return {"datasets" if v == 1 else "blend": l}
    if e["k"] == "join":
        m = [ref(x, base, rng, dirs) for x in e["l"]]
        j = {"__module__": "verif_p17", **({"__class__": "Cols"} if rng.random() < 0.5 else {"__function__": "join"})}
        return {
            "join": dict(zip(e["names"], m)) if e.get("names") else m, "joiner": j,
            **({"join_method": "inner_match"} if rng.random() < 0.3 else {}), **settings(e, rng),
        }  # fmt: skip
    return ref(e, base, rng, dirs)


def data(F, base, rng, dirs=None):
    d = {}
    if F["x"]:
        d = {"__module__": "megatron.energon", "__class__": "Metadataset" if F["v"] == 1 else "MetadatasetV2"}
    d["splits"] = {s["n"]: entry(s["e"], F["v"], base, rng, dirs) for s in F["splits"]}
    return d


def make_files(base, files, rng):
    for F in files:
        p = os.path.join(base, *F["p"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            yaml.safe_dump(data(F, base, rng), f, sort_keys=False)


# ------------------------------------------------------------------ what the code makes of it


def column(s):
    p, k, n = s.text.split("|")
    fl = s.__subflavors__ or {}
    return dict(x=[p.split("/"), k, int(n)], flavor=s.__subflavor__ or "", flavors=[[str(a), str(b)] for a, b in sorted(fl.items())])


def leaf(ds, w, train, base):
    paths = [str(p)[len(base) + 1 :].split("/") for p in ds.paths]
    m = ds.shuffle_over_epochs
    with quiet():
        (W,) = workers(ds.build())
    smp = W.take((m if m > 0 else 60) * 2 if train else None)
    cols = [[column(c) for c in s.cols] if isinstance(s, Cols) else [column(s)] for s in smp]
    f = Fraction(w).limit_denominator(6561)
    if abs(float(f) - w) > 1e-9:
        f = Fraction(-1)
    return dict(paths=paths, w=[f.numerator, f.denominator], m=m, train=bool(ds.training), par=ds.parallel_shard_iters or 0, smp=cols)


class Log:
    def __init__(self, name, W, base):
        self.d = dict(name=name, W=W, evs=[])
        self.base = base

    def load(self, rng, root, kw, how):
        split, flavor, flavors = kw
        a = {}
        if split:
            a["split_part"] = split
        if flavor:
            a["subflavor"] = flavor
        if flavors:
            a["subflavors"] = dict(map(tuple, flavors))
        p = os.path.join(self.base, *root)
        self.m, why = None, ""
        try:
            if how == "dict":
                F = next(f for f in self.d["W"]["files"] if f["p"] == root)
                x = data(F, self.base, rng, self.base[1:] + "/" + "".join(c + "/" for c in root[:-1]))
                self.m = load_dataset(copy.deepcopy(x))
            else:
                self.m = load_dataset({"str": str, "epath": EPath, "path": Path}[how](p), **a)
        except Exception as e:
            why = f"{type(e).__name__}: {e}"[:200]
        self.d["evs"].append(dict(e="load", root=root, split=split, flavor=flavor, flavors=flavors, ok=self.m is not None, why=why))
        return self.m is not None

    def get(self, split, flavor, flavors, m, train, par):
        ev = dict(e="get", split=split, flavor=flavor, flavors=flavors, m=m, train=train, par=par, ok=False, l=[], why="")
        kw = {}
        if flavor:
            kw["subflavor"] = flavor
        if flavors:
            kw["subflavors"] = dict(map(tuple, flavors))
        if m != 1:
            kw["shuffle_over_epochs_multiplier"] = m
        if par:
            kw["parallel_shard_iters"] = par
        with quiet():
            try:
                r = self.m.get_datasets(training=train, split_part=split, worker_config=wconf(0), **kw)
                ev["ok"] = True
            except Exception as e:
                ev["why"] = f"{type(e).__name__}: {e}"[:200]
        if ev["ok"]:
            ev["l"] = [leaf(ds, w, train, self.base) for ds, w in r]
        self.d["evs"].append(ev)


def cases(rows):
    out = []
    with tmpdir() as base:
        make_sets(base, rows[0][1]["W"]["sets"])
        for k, x in rows:
            rng = random.Random(k)
            W, rq = x["W"], x["rq"]
            make_files(base, W["files"], rng)
            L = Log(f"case{k}", W, base)
            if L.load(rng, ["m.yaml"], ("", "", []), "str"):
                L.get("train", rq["flavor"], rq["flavors"], rq["m"], bool(rng.getrandbits(1)), 0)
            out.append(L.d)
    return out


# ------------------------------------------------------------------ random worlds

SPLITS = ["train", "val", "x"]


def rset(rng, extra):
    d = dict(split="", flavor="", flavors=[], m=1)
    if rng.random() < extra:
        d["split"] = rng.choice(SPLITS)
    if rng.random() < 0.3:
        d["flavor"] = rng.choice("uvw")
    if rng.random() < 0.4:
        d["flavors"] = [[k, rng.choice("123")] for k in sorted(rng.sample("abcd", rng.randint(1, 3)))]
    if rng.random() < 0.3:
        d["m"] = rng.choice([2, 3])
    return d


def world(rng, n):
    dirs = [[], ["a"], ["b"], ["a", "c"]]
    sets = []
    for i in range(rng.randint(2, 4)):
        dc = [dict(n="dataset.yaml", flavors=[[k, "own"] for k in sorted(rng.sample("abcd", rng.choice([0, 0, 1, 2])))])]
        if rng.random() < 0.5:
            dc.append(dict(n="other.yaml", flavors=[["a", "other"]]))
        sc = []
        for c in ["split.yaml"] + (["alt.yaml"] if rng.random() < 0.5 else []):
            sh = rng.sample("0123", 3)
            sc.append(dict(n=c, parts=[dict(n=s, shard=k) for s, k in zip(SPLITS, sh) if rng.random() < 0.95]))
        sets.append(dict(p=rng.choice(dirs) + [f"d{i}"], d=dc, s=sc))
    files = []

    def path(frm, to):
        if rng.random() < 0.2:
            return dict(abs=True, parts=to)
        i = 0
        while i < min(len(frm), len(to) - 1) and frm[i] == to[i]:
            i += 1
        if rng.random() < 0.2:
            i = 0
        p = [".."] * (len(frm) - i) + to[i:]
        if rng.random() < 0.1:
            p = ["q", ".."] + p
        return dict(abs=False, parts=p)

    def dref(frm, S, full=True):
        e = dict(k="ref", p=path(frm, S["p"]), w=rng.randint(1, 3), d="", s="", **rset(rng, 0.2))
        if rng.random() < 0.3:
            e["d"] = rng.choice([c["n"] for c in S["d"]] + (["none.yaml"] if rng.random() < 0.1 else []))
        if rng.random() < 0.3:
            e["s"] = rng.choice([c["n"] for c in S["s"]])
        if rng.random() < 0.01:
            e["p"] = dict(abs=False, parts=["nothing"])
        return e

    def join(frm):
        l = [dref(frm, rng.choice(sets)) for _ in range(rng.randint(2, 3))]
        e = dict(k="join", l=l, w=rng.randint(1, 3), s="", **rset(rng, 0.3))
        if rng.random() < 0.2:
            e["s"] = rng.choice(["alt.yaml", "split.yaml"])
        if rng.random() < 0.5:
            # the names are sorted by the joiner: the columns come at these places
            e["names"] = [f"c{i}" for i in range(len(l))]
        return e

    def item(frm, v, blend):
        r = rng.random()
        if v == 2 and r < 0.2:
            return join(frm)
        if files and r < 0.65:
            F = rng.choice(files)
            if F["x"] or F["v"] == v or rng.random() < 0.05:
                e = dict(k="ref", p=path(frm, F["p"]), w=rng.randint(1, 3), d="", s="", **rset(rng, 0.25))
                if rng.random() < 0.01:
                    e["d"] = "other.yaml"
                return e
        return dref(frm, rng.choice(sets))

    for i in range(n):
        v, frm = rng.choice([1, 2, 2]), rng.choice(dirs)
        F = dict(p=frm + [f"m{i}.yaml"], v=v, x=rng.random() < 0.7, splits=[])
        for s in SPLITS:
            if rng.random() < 0.85:
                e = dict(n=s, e=item(frm, v, False) if v == 2 and rng.random() < 0.35 else dict(k="blend", l=[item(frm, v, True) for _ in range(rng.randint(1, 3))]))
                l = e["e"]["l"] if e["e"]["k"] == "blend" else []
                for x in l:
                    if rng.random() < 0.15:
                        x["w"] = 0
                if l and not any(x["w"] for x in l):
                    rng.choice(l)["w"] = rng.randint(1, 3)
                F["splits"].append(e)
        if i == n - 1 and rng.random() < 0.9:
            F["x"] = True
        files.append(F)
    return dict(sets=sets, files=files)


def size(W, p, v=0):
    """Number of leaves, to bound the work."""
    F = next((f for f in W["files"] if f["p"] == p), None)
    if F is None:
        return 1
    best = 1
    for s in F["splits"]:
        l = s["e"]["l"] if s["e"]["k"] == "blend" else [s["e"]]
        n = 0
        for e in l:
            q = resolve(F["p"][:-1], e["p"]) if e["k"] == "ref" else None
            n += size(W, q) if q else 1
        best = max(best, n)
    return best


def resolve(d, p):
    r = [] if p["abs"] else list(d)
    for x in p["parts"]:
        r = r[:-1] if x == ".." else r + [x]
    return r


def histories(x):
    seed, a, b = x
    out = []
    for k in range(a, b):
        rng = random.Random(f"{seed}/{k}")
        while True:
            W = world(rng, rng.randint(1, 4))
            roots = [F["p"] for F in W["files"]]
            if size(W, roots[-1]) <= 12:
                break
        with tmpdir() as base:
            make_sets(base, W["sets"])
            make_files(base, W["files"], rng)
            L = Log(f"h{k}", W, base)
            for root in [roots[-1]] + ([rng.choice(W["sets"])["p"]] if rng.random() < 0.3 else []):
                kw = ("", "", [])
                how = rng.choice(["str", "epath", "path", "dict"])
                if root != roots[-1]:
                    how = "epath" if how == "dict" else how
                    r = rset(rng, 0.3)
                    kw = (r["split"], r["flavor"], r["flavors"])
                if L.load(rng, root, kw, how):
                    for _ in range(rng.randint(1, 3)):
                        r = rset(rng, 0)
                        train = rng.random() < 0.5
                        L.get(rng.choice(SPLITS), r["flavor"], r["flavors"], r["m"], train, rng.choice([0, 0, 2 if train else 1]))
            # -1: shards are drawn with replacement for ever
            d = next((S for S in W["sets"] if any(x["n"] == "train" for x in S["s"][0]["parts"])), None)
            if d and rng.random() < 0.2:
                if L.load(rng, d["p"], ("", "", []), "str"):
                    L.get("train", "", [], -1, True, 0)
            out.append(L.d)
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o = scratch("meta.json")
    cfg = "SPECIFICATION Spec\nCONSTANT Emit = TRUE\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Meta", check_model("Meta", cfg, env={"OUT": o}))
    rows = [(k, json.loads(x)) for k, x in enumerate(open(o))]
    step = 1 if T else 16
    rows = rows[vlib.SEED % step :: step]
    traces = [x for r in collect(c, cases, [rows[k::16] for k in range(16)], what="cases", timeout=600) for x in r]
    N = 6000 if T else 480
    st = [x for r in collect(c, histories, [(vlib.SEED, k, k + 20) for k in range(0, N, 20)], what="histories", timeout=600) for x in r]
    for x in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(files=x["W"]["files"][-1], evs=[{k: e[k] for k in e if k not in "l"} for e in x["evs"][:3]]))
    c.run_traces("MetaTrace", traces, name="cases")
    c.run_traces("MetaTrace", st, name="histories")
    c.extra["datasets composed"] = sum(len(e.get("l", [])) for x in traces + st for e in x["evs"])
    return c.finish()
