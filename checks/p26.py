"""P26: conversion of configurations. All types and data of a small domain (enumerated by TLC from Typed.tla),
random types, data, classes, functions, imports and configuration files are converted by the real code.
TypedTrace.tla judges every value and every place of an error."""

import dataclasses
import json
import os
import random
import sys
import types
import typing
from typing import Any, Callable, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Type, Union

import yaml

import vlib
from vlib import Check, check_model, collect, scratch
from vdata import energon
from wload import quiet, tmpdir

from megatron.energon.dataset_config import load_config
from megatron.energon.epathlib import EPath
from megatron.energon.module_loader import ModuleLoader
from megatron.energon.typed_converter import JsonValueError, raw_to_instance, raw_to_typed, safe_call_function, to_json_object

SC = {"int": int, "str": str, "float": float, "bool": bool, "none": type(None)}


class Rec:
    """What was called with which arguments."""

    def __init__(self, n, e):
        self.n, self.e = n, e


# ------------------------------------------------------------------ data


def raw(d):
    k = d["k"]
    if k == "none":
        return None
    if k == "bool":
        return d["v"] == "True"
    if k in SC:
        return SC[k](d["v"])
    if k in ("list", "tuple"):
        return [raw(x) for x in d["l"]]
    if k == "dict":
        return {x["n"]: raw(x["v"]) for x in d["e"]}
    if k == "path":
        return EPath(d["v"])
    raise AssertionError(k)


def enc(x):
    if x is None:
        return dict(k="none", v="None")
    if type(x) in (bool, int, float, str):
        return dict(k=type(x).__name__, v=str(x))
    if isinstance(x, Rec):
        return dict(k="call", n=x.n, e=[dict(n=n, v=enc(v)) for n, v in x.e])
    if hasattr(x, "rec_"):
        if isinstance(x, type) or callable(x):
            return dict(k="obj", v=x.rec_)
        return enc(x.bound_)
    if isinstance(x, EPath):
        return dict(k="path", v=str(x))
    if isinstance(x, type):
        return dict(k="obj", v=x.__name__)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return dict(k="inst", n=type(x).__name__, e=[dict(n=n, v=enc(getattr(x, n))) for n in x._fields])
    if dataclasses.is_dataclass(x):
        return dict(k="inst", n=type(x).__name__, e=[dict(n=f.name, v=enc(getattr(x, f.name))) for f in dataclasses.fields(x)])
    if isinstance(x, (list, tuple)):
        return dict(k="list" if isinstance(x, list) else "tuple", l=[enc(y) for y in x])
    if isinstance(x, set):
        return dict(k="set", l=[enc(y) for y in sorted(x, key=repr)])
    if isinstance(x, dict):
        return dict(k="dict", e=[dict(n=str(n), v=enc(v)) for n, v in x.items()])
    return dict(k="odd", v=repr(x))


# ------------------------------------------------------------------ types


def val(d):
    """A default value."""
    if d["k"] == "tuple":
        return tuple(val(x) for x in d["l"])
    if d["k"] == "set":
        return {val(x) for x in d["l"]}
    return raw(d)


def build(t, reg):
    k = t["k"]
    if k in SC:
        return SC[k]
    if k == "any":
        return Any
    if k == "path":
        return EPath
    if k == "dict0":
        return dict
    if k == "list0":
        return list
    if k == "lit":
        return Literal[tuple(raw(x) for x in t["l"])]
    if k == "union":
        return Union[tuple(build(x, reg) for x in t["l"])]
    if k == "list":
        return List[build(t["t"], reg)]
    if k == "set":
        return Set[build(t["t"], reg)]
    if k == "tupv":
        return Tuple[build(t["t"], reg), ...]
    if k == "tup":
        return Tuple[tuple(build(x, reg) for x in t["l"])]
    if k == "dict":
        return Dict[str, build(t["t"], reg)]
    if k == "fn":
        return Callable[..., Any] if t.get("args", True) else Callable
    if k == "type":
        return Type[reg[t["n"]]]
    if k == "cls":
        return reg[t["n"]]
    if k == "rec":
        fs = [(f, build(f["t"], reg)) for f in t["f"]]
        if t.get("nt"):

            def body(ns):
                ns["__module__"] = __name__
                ns["__annotations__"] = {f["n"]: ty for f, ty in fs}
                ns.update({f["n"]: val(f["d"][0]) for f, _ in fs if f["d"]})

            return types.new_class(t["n"], (NamedTuple,), {}, body)

        def post(self):
            for n in t["neg"]:
                v = getattr(self, n)
                if isinstance(v, int) and v < 0:
                    raise ValueError("must not be negative")

        return dataclasses.make_dataclass(
            t["n"],
            [
                (f["n"], ty)
                + (
                    (dataclasses.field(init=f["init"], **({"default_factory": (lambda d=f["d"][0]: val(d))} if f["d"] and f["d"][0]["k"] in ("list", "dict", "set") else {"default": val(f["d"][0])} if f["d"] else {})),)
                    if f["d"] or not f["init"]
                    else ()
                )
                for f, ty in fs
            ],
            namespace={"__post_init__": post} if t["neg"] else {},
        )
    raise AssertionError(k)


def module(name, R, reg=None):
    """A module with the objects of R."""
    mod = sys.modules.setdefault(name, types.ModuleType(name))
    for o in R:
        if o["m"] != name:
            continue
        ns = {"Rec": Rec}
        parts, seen = [], False
        for p in o["ps"]:
            ns["T_" + p["n"]] = build(p["t"], reg)
            if p["d"]:
                ns["D_" + p["n"]] = val(p["d"][0])
            a = f"{p['n']}: T_{p['n']}" if not p.get("bare") else p["n"]
            if p["k"] == "ko" and not seen:
                if not any(q["k"] == "vp" for q in o["ps"]):
                    parts.append("*")
                seen = True
            if p["k"] == "vk":
                a = "**" + a
            elif p["k"] == "vp":
                a = "*" + a
            elif p["d"]:
                a += f" = D_{p['n']}"
            parts.append(a)
        sig = ", ".join(parts)
        e = " + ".join(f"[({p['n']!r}, {p['n']})]" if p["k"] != "vk" else f"list({p['n']}.items())" for p in o["ps"]) or "[]"
        if not any(p["k"] == "vp" for p in o["ps"]):
            drop = ""
        if o["kind"] == "fn":
            exec(f"def {o['n']}({sig}):\n    return Rec({o['n']!r}, {e})\n", ns)
            ns[o["n"]].rec_ = o["n"]
        elif o["kind"] == "cls":
            base = next((b for b in o["base"] if b != o["n"]), None)
            if base:
                ns["Base"] = reg[base]
            exec(f"class {o['n']}{'(Base)' if base else ''}:\n    rec_ = {o['n']!r}\n    def __init__(self{', ' if sig else ''}{sig}):\n        self.bound_ = Rec({o['n']!r}, {e})\n", ns)
        else:
            ns[o["n"]] = 5
        reg[o["n"]] = ns[o["n"]]
        setattr(mod, o["n"], ns[o["n"]])
    return mod


# ------------------------------------------------------------------ judging


def steps(path):
    out = []
    for k, s in enumerate(path.split(" -> ")):
        if k == 0:
            if s != "root":
                out.append(s)
        elif s.isdigit():
            out.append(s)
        elif s[:1] in "'\"":
            out.append(s[1:-1])
        elif ":" in s:
            out.append(s.split(":", 1)[1])
    return out


NONE = dict(k="none", v="None")


def attempt(fn, *data):
    before = [repr(x) for x in data]
    r = attempt_(fn)
    if [repr(x) for x in data] != before:
        return dict(ok=True, v=dict(k="odd", v="the data was changed"), p=[])
    return r


def attempt_(fn):
    try:
        return dict(ok=True, v=enc(fn()), p=[])
    except JsonValueError as e:
        return dict(ok=False, v=NONE, p=steps(e.path))
    except (ValueError, ImportError, AttributeError):
        return dict(ok=False, v=NONE, p=["?"])


# ------------------------------------------------------------------ cases


def cases(a):
    part, ts, ds = a
    out = []
    for j in part:
        evs = []
        cls = build(ts[j], {})
        for i, d in enumerate(ds, 1):
            r = raw(d)
            for s in (True, False):
                evs.append(dict(e="x", t=1, d=i, s=s, **attempt(lambda: raw_to_typed(r, cls, s))))
        out.append(dict(name=f"case{j}", R=[], types=[ts[j]], data=ds, evs=evs))
    return out


FIELD = ["x", "y", "z", "name", "value", "_p", "cls"]


class G:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.R = []
        self.reg = {}
        self.mods = [f"vtyped_{rng.randrange(10**9)}" for _ in range(2)]

    def scalar(self, k=None):
        rng = self.rng
        k = k or rng.choice(list(SC))
        return dict(
            k=k,
            v=str(
                {
                    "int": lambda: rng.choice([2, 3, 7, -1, -2, 10**12]),
                    "str": lambda: rng.choice(["a", "b", " ", "3", "True", "None", "ü", "file.txt"]),
                    "float": lambda: rng.choice([2.5, -0.25]),
                    "bool": lambda: rng.choice([True, False]),
                    "none": lambda: None,
                }[k]()
            ),
        )

    def type(self, depth=3, imports=False, hashable=False, plain=False):
        rng = self.rng
        if depth == 0 or hashable or rng.random() < 0.3:
            k = rng.choice(["int", "str", "float", "bool", "none", "any", "lit", "path", "dict0", "list0"] + (["fn", "type", "cls"] if imports and not plain else []))
            if hashable:
                k = rng.choice(["int", "str", "lit"])
            if k == "lit":
                return dict(k="lit", l=[self.scalar(rng.choice(["str", "str", "int"])) for _ in range(rng.randint(1, 3))])
            if k == "fn":
                return dict(k="fn", args=rng.random() < 0.5)
            if k in ("type", "cls"):
                cs = [o["n"] for o in self.R if o["kind"] == "cls"]
                if not cs:
                    return dict(k="any")
                return dict(k=k, n=rng.choice(cs))
            return dict(k=k)
        sub = lambda **kw: self.type(depth - 1, imports, plain=plain, **kw)
        k = rng.choice(["union", "union", "list", "set", "tupv", "tup", "dict", "rec", "rec", "rec"])
        if k == "union":
            ms = []
            while len(ms) < 2:
                ms = []
                for _ in range(rng.choice([2, 2, 3])):
                    m = rng.choice([dict(k="none"), self.type(depth - 1, False, plain=plain)])
                    if m not in ms and m["k"] not in ("any", "union", "cls"):
                        ms.append(m)
            return dict(k="union", l=ms)
        if k == "set":
            return dict(k=k, t=self.type(0, hashable=True))
        if k in ("list", "tupv", "dict"):
            return dict(k=k, t=sub())
        if k == "tup":
            return dict(k=k, l=[sub() for _ in range(rng.randint(1, 3))])
        self.n += 1
        name = f"C{self.n}"
        fs = []
        nt = rng.random() < 0.4
        opt = False
        for f in rng.sample([x for x in FIELD if not (nt and x.startswith("_"))], rng.randint(0 if not nt else 1, 4)):
            t = sub()
            d = []
            if opt or rng.random() < 0.3:
                d = self.default(t)
                opt = opt or bool(d)
                if not d:
                    continue
            fs.append(dict(n=f, t=t, init=True, d=d))
        if nt and not fs:
            nt = False
        if not nt and rng.random() < 0.15:
            fs.append(dict(n="late", t=dict(k="int"), init=False, d=[dict(k="int", v="5")]))
        neg = [f["n"] for f in fs if f["t"]["k"] == "int"][:1] if not nt and rng.random() < 0.4 else []
        # defaults do not fail
        for f in fs:
            if f["n"] in neg and f["d"]:
                f["d"] = [dict(k="int", v="4")]
        return dict(k="rec", n=name, f=fs, neg=neg, nt=nt)

    def default(self, t, depth=2):
        """A value for a default (as a list, empty if there is none)."""
        rng, k = self.rng, t["k"]
        if rng.random() < 0.15:
            return [dict(NONE)]
        if k in SC:
            return [self.scalar(k)]
        if k == "any":
            return [self.scalar()]
        if k == "lit":
            return [rng.choice(t["l"])]
        if k == "union":
            return self.default(rng.choice(t["l"]))
        if k == "path":
            return [dict(k="path", v="/a/b")]
        if k == "list":
            return [dict(k="list", l=[self.scalar("str")])]
        if k in ("tup", "tupv"):
            return [dict(k="tuple", l=[self.scalar("str"), self.scalar("int")])]
        if k in ("dict", "dict0"):
            return [dict(k="dict", e=[dict(n="q", v=self.scalar("int"))])]
        return [dict(NONE)]

    def data(self, t, depth=4, wrong=0.1, imports=False):
        """Data which conforms to t in most cases."""
        rng, k = self.rng, t["k"]
        if rng.random() < wrong:
            return self.any(2)
        sub = lambda x: self.data(x, depth - 1, wrong, imports)
        if k == "float":
            return self.scalar(rng.choice(["float", "int"]))
        if k in SC:
            return self.scalar(k)
        if k == "any":
            return self.imp(None, wrong) if imports and rng.random() < 0.4 and depth > 0 else self.any(2)
        if k == "lit":
            return dict(rng.choice(t["l"]))
        if k == "union":
            return self.data(rng.choice(t["l"]), depth - 1, wrong)
        if k == "path":
            return dict(k="str", v="/a/b.c") if rng.random() < 0.7 else dict(k="path", v="/x/y")
        if k in ("list", "tupv"):
            return dict(k="list", l=[sub(t["t"]) for _ in range(rng.randint(0, 3))])
        if k == "set":
            l = []
            for _ in range(rng.randint(0, 3)):
                x = sub(t["t"])
                if x["k"] in ("str", "int") and (x not in l or rng.random() < 0.3):
                    l.append(x)
            return dict(k="list", l=l)
        if k == "tup":
            l = [sub(x) for x in t["l"]]
            if rng.random() < wrong:
                l = l[:-1] if rng.random() < 0.5 else l + [self.scalar()]
            return dict(k="list", l=l)
        if k == "dict":
            return dict(k="dict", e=[dict(n=n, v=sub(t["t"])) for n in rng.sample(["a", "b b", "c", "1", "x"], rng.randint(0, 3))])
        if k == "dict0":
            return dict(k="dict", e=[dict(n=n, v=self.any(1)) for n in rng.sample(["a", "b"], rng.randint(0, 2))])
        if k == "list0":
            return dict(k="list", l=[self.any(1) for _ in range(rng.randint(0, 2))])
        if k == "rec":
            e = []
            for f in t["f"]:
                if (not f["init"] and rng.random() > 0.1) or (f["d"] and rng.random() < 0.5) or rng.random() < wrong / 2:
                    continue
                e.append(dict(n=f["n"], v=sub(f["t"])))
            if rng.random() < wrong:
                e.append(dict(n="unknown", v=self.scalar()))
            rng.shuffle(e)
            return dict(k="dict", e=e)
        if k in ("fn", "type", "cls"):
            return self.imp(t, wrong) if imports else self.any(1)
        raise AssertionError(k)

    def any(self, depth):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.6:
            return self.scalar()
        if r < 0.8:
            return dict(k="list", l=[self.any(depth - 1) for _ in range(rng.randint(0, 2))])
        return dict(k="dict", e=[dict(n=n, v=self.any(depth - 1)) for n in rng.sample(["x", "y", "a"], rng.randint(0, 2))])

    def obj(self, kinds, base=None):
        os_ = [o for o in self.R if o["kind"] in kinds and (base is None or base in o["base"])]
        return self.rng.choice(os_) if os_ else None

    def imp(self, t, wrong):
        rng = self.rng
        k = t["k"] if t else "any"
        fn = k == "fn" or (k in ("any", "cls") and rng.random() < 0.4)
        if k == "type" and rng.random() < wrong:
            o = self.obj(["cls", "fn"])
        elif fn:
            o = self.obj(["fn"] if k != "fn" else ["fn", "cls"])
        else:
            o = self.obj(["cls"], t["n"] if k in ("type", "cls") else None)
        if o is None:
            o = dict(n="missing", m=self.mods[0], ps=[], kind="fn")
        m, n = o["m"], o["n"]
        if rng.random() < wrong / 2:
            n = "missing"
        if rng.random() < wrong / 3:
            m = "no_such_module_at_all"
        if rng.random() < wrong / 2:
            fn = not fn
        e = [dict(n="__module__", v=dict(k="str", v=m)), dict(n="__function__" if fn else "__class__", v=dict(k="str", v=n))]
        if k in ("any", "cls"):
            e += self.args(o, wrong)["e"]
        elif rng.random() < wrong:
            e += [dict(n="unknown", v=self.scalar())]
        if rng.random() < wrong / 3:
            e = e[1:]
        rng.shuffle(e)
        return dict(k="dict", e=e)

    def args(self, o, wrong):
        rng = self.rng
        e = []
        for p in o["ps"]:
            if p["k"] == "vp":
                continue
            if p["k"] == "vk":
                e += [dict(n=n, v=self.data(p["t"], 2, wrong, True)) for n in rng.sample(["k1", "k2"], rng.randint(0, 2))]
            elif not (p["d"] and rng.random() < 0.5) and rng.random() > wrong / 3:
                e.append(dict(n=p["n"], v=self.data(p["t"], 2, wrong, True)))
        if rng.random() < wrong:
            e.append(dict(n="unknown", v=self.scalar()))
        return dict(k="dict", e=e)

    def objects(self, n):
        rng = self.rng
        for i in range(n):
            kind = rng.choice(["fn", "cls", "cls", "fn"])
            ps, opt = [], False
            names = rng.sample(FIELD, rng.randint(0, 4))
            ko = rng.random() < 0.3
            for j, nm in enumerate(names):
                t = self.type(2, True)
                d = []
                if opt or rng.random() < 0.3:
                    d = self.default(t)
                    opt = True
                ps.append(dict(n=nm, t=t, d=d, k="ko" if ko and j >= len(names) - 1 else "pk", bare=False))
                if rng.random() < 0.15:
                    ps[-1].update(t=dict(k="any"), bare=True)
            r = rng.random()
            if r < 0.2:
                ps.append(dict(n="rest", t=self.type(1), d=[], k="vk", bare=False))
            elif r < 0.35 and not ko:
                ps.append(dict(n="more", t=self.type(1), d=[], k="vp", bare=False))
            name = f"{'F' if kind == 'fn' else 'K'}{i}"
            base = [name]
            if kind == "cls" and rng.random() < 0.4:
                b = self.obj(["cls"])
                if b:
                    base += b["base"]
            o = dict(n=name, m=rng.choice(self.mods), kind=kind, base=base, ps=ps)
            module(o["m"], [o], self.reg)
            self.R.append(o)


def conversions(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p26/{k}")
        g = G(rng)
        g.objects(rng.randint(1, 5))
        evs = []
        for _ in range(12):
            im = rng.random() < 0.4
            t = g.type(3, im)
            cls = build(t, g.reg)
            for _ in range(4):
                d = g.data(t, 4, rng.choice([0, 0, 0.1, 0.3]), im)
                s = rng.random() < 0.6
                r = raw(d)
                got = attempt(lambda: raw_to_typed(r, cls, s, im), r)
                evs.append(dict(e="c", t=t, d=d, s=s, im=im, **got))
                if got["ok"] and t["k"] == "rec" and not im and "set" not in json.dumps(got["v"]) and "path" not in json.dumps(got["v"]):
                    v = raw_to_typed(r, cls, s, im)
                    w = to_json_object(v)
                    late = any(not f["init"] for f in t["f"])
                    if "late" not in json.dumps(got["v"]):
                        evs.append(dict(e="w", v=got["v"], d=enc(w)))
                        if k % 2 == 0 and "Union" not in str(cls):
                            evs.append(dict(e="c", t=t, d=enc(json.loads(json.dumps(w))), s=s, im=im, **attempt(lambda: raw_to_typed(json.loads(json.dumps(w)), cls, s, im))))
        for _ in range(10):
            o = rng.choice(g.R)
            f = g.reg[o["n"]]
            s = rng.random() < 0.6
            wrong = rng.choice([0, 0, 0.15, 0.4])
            d = g.args(o, wrong)
            if rng.random() < 0.4 and not any(p["k"] in ("ko", "vk") for p in o["ps"]):
                ps = [p for p in o["ps"] if p["k"] == "pk"]
                n = len(ps)
                while n and ps[n - 1]["d"] and rng.random() < 0.6:
                    n -= 1
                if rng.random() < wrong / 2:
                    n = max(n - 1, 0)
                l = [g.data(p["t"], 2, wrong, True) for p in ps[:n]]
                if n == len(ps) and rng.random() < 0.5:
                    vp = [p for p in o["ps"] if p["k"] == "vp"]
                    if vp or rng.random() < wrong:
                        l += [g.data(vp[0]["t"] if vp else dict(k="any"), 2, wrong) for _ in range(rng.randint(1, 2))]
                d = dict(k="list", l=l)
            im = rng.random() < 0.5
            r = raw(d)
            evs.append(dict(e="f", n=o["n"], d=d, s=s, im=im, **attempt(lambda: safe_call_function(r, f, s, im), r)))
        for _ in range(10):
            o = g.obj(["cls"])
            if not o:
                break
            s = rng.random() < 0.7
            wrong = rng.choice([0, 0, 0.15, 0.4])
            d = g.args(o, wrong) if rng.random() < 0.4 else g.imp(dict(k="cls", n=o["n"]), wrong)
            r = rng.random()
            if any(x["n"] == "__module__" for x in d["e"]) and not any(x["n"] in ("__class__", "__function__") for x in d["e"]):
                pass
            if r < 0.5:
                data = [raw(d)]
                fn = lambda: raw_to_instance(data[0], g.reg[o["n"]], strict=s)
            else:
                dflt = dict(k="dict", e=[x for x in d["e"] if rng.random() < 0.3 and not x["n"].startswith("__")])
                rest = dict(k="dict", e=[x for x in d["e"] if x not in dflt["e"] or rng.random() < 0.3])
                # entries of the configuration take precedence over the default arguments
                dk = {x["n"]: raw(x["v"]) if rng.random() < 0.5 or x not in rest["e"] else "overridden" for x in dflt["e"]}
                if r < 0.75 and '"path"' not in json.dumps(rest):
                    with tmpdir() as td:
                        p = os.path.join(td, "conf.yaml")
                        with open(p, "w") as f:
                            yaml.safe_dump(raw(rest), f)
                        got = attempt(lambda: load_config(EPath(p), default_type=g.reg[o["n"]], strict=s, default_kwargs=dk), dk)
                    fn = None
                else:
                    data = [raw(rest), dk]
                    fn = lambda: load_config(data[0], default_type=g.reg[o["n"]], strict=s, default_kwargs=dk or None)
            if fn:
                got = attempt(fn, *data)
            evs.append(dict(e="i", n=o["n"], d=d, s=s, **got))
        with tmpdir() as td:
            fs = {}
            for sub in ("", "sub", "sub/deep"):
                os.makedirs(os.path.join(td, sub), exist_ok=True)
                for nm in ("one.py", "two.py"):
                    p = os.path.join(sub, nm)
                    fs[p] = rng.sample(["load", "want", "other"], 2)
                    with open(os.path.join(td, p), "w") as f:
                        f.write("".join(f"def {x}(): return {p + ':' + x!r}\n" for x in fs[p]))
            ml = ModuleLoader()
            os.chdir(td)
            for _ in range(12):
                p = rng.choice(list(fs))
                x = rng.choice(fs[p])
                r = rng.random()
                name = os.path.join(td, p) if r < 0.3 else p
                if 0.3 <= r < 0.6 and "/" in p:
                    rel, name = EPath(os.path.join(td, os.path.dirname(p))), os.path.basename(p)
                else:
                    rel = EPath(td) if r >= 0.45 else None
                try:
                    if rng.random() < 0.6:
                        got = ml.get_function(f"{name}:{x}", rng.choice([None, "other"]), relative_path=rel)()
                    else:
                        got = ml.get_function(name, x, relative_path=rel)()
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                evs.append(dict(e="m", want=f"{p}:{x}", got=got))
            os.chdir("/")
        for m in g.mods:
            sys.modules.pop(m, None)
        out.append(dict(name=f"conv{k}", R=g.R, types=[], data=[], evs=evs))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o1, o2 = scratch("types.json"), scratch("data.json")
    cfg = "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nINVARIANTS Sound Complete Laws\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Typed", check_model("Typed", cfg, env={"OUT": o1, "OUT2": o2}))
    ts = [json.loads(x) for x in open(o1)]
    ds = [json.loads(x) for x in open(o2)]
    traces = [t for x in collect(c, cases, [(range(k, len(ts), 16), ts, ds) for k in range(16)], what="cases") for t in x]
    N = 8000 if T else 600
    st = [t for x in collect(c, conversions, [(vlib.SEED, k, k + 10) for k in range(0, N, 10)], what="conversions") for t in x]
    for t in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(objects=t["R"][:1], events=t["evs"][:2]))
    c.run_traces("TypedTrace", traces, name="cases")
    c.run_traces("TypedTrace", st, name="conversions", chunk=500)
    return c.finish()
