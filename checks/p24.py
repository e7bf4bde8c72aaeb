"""P24: assembly of samples. All access expressions and values of a small domain (enumerated by TLC from
Field.tla) are evaluated by the real code; datasets with random files, field maps, sample loaders and
part filters run through complete loaders. FieldTrace.tla judges every field of every sample."""

import json
import os
import random
import re

import vlib
import wds
from vlib import Check, check_model, collect, scratch
from engine import wconf
from full import canon
from vdata import energon
from vfield import FieldSample
from vloader import Lazy, shutdown, virtualize
from wload import quiet, tmpdir

from megatron.energon import TaskEncoder, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.flavors.webdataset.field_access import field_access, split_field_access


def enc(x):
    """A value as FieldOps.tla writes it."""
    if isinstance(x, dict):
        return dict(k="d", m=[[str(k), enc(v)] for k, v in x.items()])
    if isinstance(x, list):
        return dict(k="l", e=[enc(v) for v in x])
    return dict(k="s", v=f"{type(x).__name__[0]}:{x}")


def dec(v):
    if v["k"] == "d":
        return {k: dec(x) for k, x in v["m"]}
    if v["k"] == "l":
        return [dec(x) for x in v["e"]]
    return None if v["v"] == "n:None" else v["v"][2:]


def comp(n):
    try:
        return dict(n=n, i=int(n), isi=True)
    except ValueError:
        return dict(n=n, i=0, isi=False)


def text(opts):
    return ",".join(o[0]["n"] + "".join(f"[{c['n']}]" for c in o[1:]) for o in opts)


def enc2(x):
    # in the cases all plain values are text
    if isinstance(x, dict):
        return dict(k="d", m=[[k, enc2(v)] for k, v in x.items()])
    if isinstance(x, list):
        return dict(k="l", e=[enc2(v) for v in x])
    return dict(k="s", v="n:None" if x is None else f"s:{x}")


def ev(e, i=0, f=(), keys=True, sub="", subs=()):
    return dict(e=e, i=i, f=list(f), keys=keys, sub=sub or "", subs=[list(x) for x in subs])


def cases(a):
    part, exprs = a
    out = []
    for k, value in part:
        v = dec(value)
        evs = []
        for i, x in enumerate(exprs, 1):
            try:
                evs.append(ev("v", i, [enc2(field_access(v, split_field_access(text(x))))]))
            except Exception:
                evs.append(ev("x", i))
        out.append(dict(name=f"case{k}", kind="case", value=value, exprs=exprs, src=[], fields=[], filter=[], sub="", subs=[], evs=evs))
    return out


# --------------------------------------------------------------------------------------------

KEYS = ["a", "b", "x y", "0", "1", "k.z", "ü", "__key__", " a", "b ", "A"]


def value(rng, depth=3):
    r = rng.random()
    if depth and r < 0.4:
        return {k: value(rng, depth - 1) for k in rng.sample(KEYS, rng.randint(0, 4))}
    if depth and r < 0.65:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([None, True, False, 0, 1, 5, -3, 2.5, "", "x", "long text", "0"])


EXT = ["json", "txt", "meta.json", "a.txt", "cls", "bin", "TXT", "2.json"]


def content(rng, ext, like=None):
    """(bytes, decoded value, broken)"""
    if ext.endswith("json"):
        if rng.random() < 0.06:
            return b"{broken", None, True
        v = like(rng) if like else value(rng)
        # the decoder leaves a file as it is for which it gets None
        v = "null" if v is None else v
        return json.dumps(v).encode(), v, False
    if ext == "cls":
        if rng.random() < 0.06:
            return b"not a number", None, True
        v = rng.randint(0, 9)
        return str(v).encode(), v, False
    if ext.endswith("txt"):
        if rng.random() < 0.06:
            return b"\xff\xfe\xff", None, True
        v = rng.choice(["t1", "", "text with [brackets], and commas"])
        return v.encode(), v, False
    b = bytes(rng.randrange(256) for _ in range(rng.randint(0, 5)))
    return b, b, False


def num_of(key):
    return int(re.search(r"(\d+)$", key).group(1))


def path(rng, v, n=0):
    """A path which exists more often than not."""
    res = []
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.12:
            res.append(rng.choice(["a", "b", "0", "1", "-1", "nokey"]))
            v = None
        elif isinstance(v, dict) and v:
            k = rng.choice(list(v))
            res.append(k)
            v = v[k]
        elif isinstance(v, list) and v:
            j = rng.randrange(-len(v), len(v))
            res.append(str(j))
            v = v[j]
        else:
            break
    return res


def streams(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p24/{k}")
        with tmpdir() as d, quiet():
            n = rng.choice([0, 0, 0, 1, 2])
            train = rng.random() < 0.3
            n = n if train else 0
            kind = rng.choice(["map", "map", "map", "fn"])
            raw = rng.random() < 0.15  # undecoded
            exts = rng.sample(EXT, rng.randint(2, 5))
            shape = rng.randrange(10**6)
            base = random.Random(shape)
            like = {e: value(base) for e in exts}

            def vary(e):
                # most samples have the same structure
                return lambda r: like[e] if r.random() < 0.8 else value(r)

            src, ents, i, keyof, body = [], {}, 0, {}, {}
            names = [f"shard{x}.tar" for x in range(rng.randint(1, 3))]
            counts = []
            pre = rng.choice(['s', 'Sample ', 'dir/s', 'Ä_'])
            for nm in names:
                c = rng.randint(2, 5)
                counts.append(c)
                ents[nm] = []
                for _ in range(c):
                    base_name = f"{pre}{i}"
                    keyof[i] = f"{nm}/{base_name}"
                    m, broken, first = [["__key__", enc(keyof[i])], ["__shard__", enc(nm)]], [], True
                    for e in exts:
                        if rng.random() < 0.12 and not (first and e == exts[-1]):
                            continue
                        data, v, bad = content(rng, e, vary(e))
                        ents[nm].append((f"{base_name}.{e}", data, first))
                        first = False
                        if raw:
                            bad, v = False, data
                        m.append([e, enc(v) if not bad else enc("?")])
                        if bad:
                            broken.append(e)
                    src.append(dict(i=i, parts=dict(k="d", m=m), broken=broken))
                    i += 1
            p = os.path.join(d, "ds")
            os.makedirs(p)
            for nm in names:
                wds.write_tar(os.path.join(p, nm), ents[nm])
            sub, subs = rng.choice([None, "s"]), rng.choice([None, {"q": "1"}, {"q": "1", "r": "2"}])
            ds = {}
            extra = {}
            fields, filt = [], []
            if kind == "map":
                cols = ["a", "b"] + [x for x in ("c", "d") if rng.random() < 0.4]
                for f in cols:
                    opts = []
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        if rng.random() < 0.1:
                            opts.append([comp(rng.choice(["__key__", "__shard__", "nofile"]))])
                        else:
                            e = rng.choice(exts)
                            o = [comp(e)]
                            if e.endswith("json") and not raw:
                                o += [comp(x) for x in path(rng, like[e])]
                            opts.append(o)
                    fields.append(dict(name=f, opts=opts))
                ds = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory" if rng.random() < 0.5 else "StandardWebdatasetFactory", "sample_type": {"__module__": "vfield", "__class__": "FieldSample"}}
                ds["field_map"] = {f["name"]: text(f["opts"]) for f in fields}
            else:
                cols = ["a", "b"]
                filt = rng.sample(EXT, rng.randint(0, 4))
                extra["sample_loader.py"] = (
                    "def load(raw):\n    return dict(a=[k for k in raw if not k.startswith('__')], b=sorted(k for k in raw if k.startswith('__')))\n"
                    f"def want(part):\n    return part in {filt!r}\n"
                )
                ds = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory", "sample_type": {"__module__": "vfield", "__class__": "FieldSample"}}
                ds["sample_loader"] = "sample_loader.py:load"
                ds["part_filter"] = rng.choice([filt, "sample_loader.py:want"])
            if raw:
                ds["auto_decode"] = False
            if subs and rng.random() < 0.5:
                ds["subflavors"] = subs
                over = None
            else:
                over = subs
            if sub and rng.random() < 0.5:
                ds["subflavor"] = sub
                osub = None
            else:
                osub = sub
            wds.write_meta(p, dict(zip(names, counts)), {"train": names, "val": names}, dataset=ds, extra=extra)
            meta = os.path.join(d, "meta.yaml")
            e = dict(path="ds")
            if osub:
                e["subflavor"] = osub
            if over:
                e["subflavors"] = over
            wds.metadataset(meta, [e], split=["train", "val"])
            wc = wconf(n)
            tr = dict(name=f"stream{k}", kind=kind, fields=fields, filter=filt, src=src, sub=sub or "", subs=[[x, y] for x, y in (subs or {}).items()], value=dict(k="s", v=""), exprs=[])

            def one(e, s):
                num = num_of(s.__key__)
                ok = s.__key__ == keyof[num] and type(s) is FieldSample and isinstance(s.__subflavors__, dict) and isinstance(s.__restore_key__, tuple)
                if kind == "map":
                    f = [enc(getattr(s, x)) for x in cols]
                    ok = ok and ("c" in cols or s.c is None) and ("d" in cols or s.d == ["default"])
                else:
                    f = [enc2(x) for x in s.a]
                    f = [dict(k="s", v=x) for x in s.a]
                    ok = ok and {"__key__", "__restore_key__", "__shard__"} <= set(s.b)
                return ev(e, num, f, ok, s.__subflavor__, (s.__subflavors__ or {}).items())

            evs, got = [], []

            def handler(exc, key):
                evs.append(ev("h", num_of(str(key))))

            te = TaskEncoder()
            if train:
                # enough samples for all workers which can be delivered
                fails = sum(_fails(tr, s) for s in src)
                if fails:
                    train = False
                    n = 0
                    wc = wconf(0)
            if train:
                dd = get_train_dataset(meta, worker_config=wc, task_encoder=te, handler=handler, batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=2, virtual_epoch_length=0)
                loader = virtualize(get_savable_loader(dd, worker_config=wc), Lazy()) if n else get_savable_loader(dd, worker_config=wc)
                if len(src) >= 2 * max(n, 1):
                    it = iter(loader)
                    got = [next(it) for _ in range(12)]
                    evs += [one("k", s) for s in got]
            else:
                dd = get_val_dataset(meta, worker_config=wc, task_encoder=te, batch_size=None, handler=handler)
                loader = get_savable_loader(dd, worker_config=wc)
                for _ in range(2):
                    for s in loader:
                        got.append(s)
                        evs.append(one("d", s))
                    evs.append(ev("e"))
            for s in rng.sample(got, min(len(got), 3)):
                y = loader.restore_sample(s.__restore_key__)
                e = one("k", y)
                e["keys"] = e["keys"] and canon(y) == canon(s)
                evs.append(e)
            if n:
                shutdown(loader)
            tr["evs"] = evs
            if evs:
                out.append(tr)
    return out


def _find(v, path):
    for c in path:
        if v["k"] == "d":
            v = dict((a, b) for a, b in v["m"]).get(c["n"])
        elif v["k"] == "l" and c["isi"] and -len(v["e"]) <= c["i"] < len(v["e"]):
            v = v["e"][c["i"]]
        else:
            v = None
        if v is None:
            return False
    return True


def _fails(t, s):
    need = {o[0]["n"] for f in t["fields"] for o in f["opts"]} | set(t["filter"])
    return bool(set(s["broken"]) & need) or any(not any(_find(s["parts"], o) for o in f["opts"]) for f in t["fields"])


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o1, o2 = scratch("fvalues.json"), scratch("fexprs.json")
    c.add_model("Field", check_model("Field", "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nINVARIANTS Right\nCHECK_DEADLOCK FALSE\n", env={"OUT": o1, "OUT2": o2}))
    values = [json.loads(x) for x in open(o1)]
    exprs = [json.loads(x) for x in open(o2)]
    c.extra["enumerated"] = dict(values=len(values), expressions=len(exprs))
    traces = [t for x in collect(c, cases, [(list(enumerate(values))[k::16], exprs) for k in range(16)], what="cases") for t in x]
    N = 12000 if T else 1000
    st = [t for x in collect(c, streams, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="streams") for t in x]
    for t in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(fields=[(f["name"], text(f["opts"])) for f in t["fields"]], filter=t["filter"], sample=t["src"][0], events=t["evs"][:3]))
    c.run_traces("FieldTrace", traces, name="cases", chunk=3000)
    c.run_traces("FieldTrace", st, name="streams", chunk=3000)
    c.extra["delivered"] = sum(e["e"] in "dk" for t in st for e in t["evs"])
    c.extra["failed"] = sum(_fails(t, s) for t in st for s in t["src"])
    return c.finish()
