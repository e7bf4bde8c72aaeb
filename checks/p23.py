"""P23: paths. All texts of a few components (enumerated by TLC from Path.tla) and random sequences of path
and file operations, local (unprivileged, in a scratch directory) and on two remotes (a stand-in for the
S3 client), run through the real EPath. PathTrace.tla judges every path, match and file."""

import json
import os
import pickle
import random
import shutil
import tempfile
import types

import vlib
from vlib import Check, check_model, collect, scratch
from vdata import energon
from wload import quiet

from fsspec.implementations.memory import MemoryFileSystem
from megatron.energon.epathlib import EPath
from megatron.energon.epathlib import epath as module

STORES = {}


class Fake(MemoryFileSystem):
    """The S3 client: one store for each account, paths without leading slash."""

    protocol = "fake"
    cachable = False

    def __init__(self, **kw):
        super().__init__()
        self.account = (kw.get("key"), kw.get("secret"), kw.get("endpoint_url"), kw.get("client_kwargs", {}).get("region_name"))
        self.store = STORES.setdefault(self.account, {})
        self.pseudo_dirs = [""]
        self._pid = os.getpid()

    def __eq__(self, o):
        return isinstance(o, Fake) and o.account == self.account

    def __hash__(self):
        return hash(self.account)

    def __reduce__(self):
        a = self.account
        return (remade, (a,))

    def glob(self, path, **kw):
        assert not path.startswith("/")
        return [x.lstrip("/") for x in super().glob(path, **kw)]


def remade(a):
    return Fake(key=a[0], secret=a[1], endpoint_url=a[2], client_kwargs=dict(region_name=a[3]))


REMOTES = {
    "one": ("k1", "s1", "https://one.example.com", "eu"),
    "a": ("k3", "s3", "https://one.example.com", "eu"),
    "Two-2": ("k2", "s1", "http://two.example.com:90", "us"),
}


def prepare():
    module.s3fs = types.SimpleNamespace(S3FileSystem=Fake)
    STORES.clear()
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    d = tempfile.mkdtemp(prefix="p23_")
    os.makedirs(os.path.join(d, "conf", "rclone"))
    with open(os.path.join(d, "conf", "rclone", "rclone.conf"), "w") as f:
        for n, (k, s, e, r) in REMOTES.items():
            f.write(f"[{n}]\ntype = s3\nprovider = x\naccess_key_id = {k}\nsecret_access_key = {s}\nregion = {r}\nendpoint = {e.removeprefix('https://')}\n\n")
    os.environ["XDG_CONFIG_HOME"] = os.path.join(d, "conf")
    os.environ["HOME"] = d
    return d


def t(s):
    return [ord(x) for x in s]


class Log:
    def __init__(self, name, cwd, dirs):
        self.evs, self.objs = [], []
        self.d = dict(name=name, cwd=t(cwd), dirs=[t(x) for x in dirs], evs=self.evs)

    def ev(self, e, **kw):
        self.evs.append(dict(e=e, **{"x": 1, "y": 1, **kw}))

    def new(self, e, fn, **kw):
        try:
            p = fn()
        except Exception:
            self.ev(e, ok=False, s=[], **kw)
            return None
        self.objs.append(p)
        self.ev(e, ok=True, s=t(str(p)), **kw)
        return len(self.objs)

    def val(self, e, fn, key, **kw):
        try:
            r = fn()
        except Exception:
            self.ev(e, ok=False, **{key: [] if key in ("s", "l") else 0 if key == "n" else False}, **kw)
            return None
        self.ev(e, ok=True, **{key: t(r) if key == "s" else r}, **kw)
        return r

    def do(self, e, fn, **kw):
        try:
            fn()
            self.ev(e, ok=True, **kw)
            return True
        except Exception:
            self.ev(e, ok=False, **kw)


def algebra(L, x, y, suf):
    """Everything for the paths x and y (numbers)."""
    o = L.objs
    X, Y = o[x - 1], o[y - 1]
    for e, fn in (("parent", lambda: X.parent), ("abs", lambda: X.absolute()), ("pickle", lambda: pickle.loads(pickle.dumps(X)))):
        L.new(e, fn, x=x)
    if "://" not in str(X) or X.parent != X:
        L.new("suffix", lambda: X.with_suffix(suf), x=x, a=t(suf))
    L.new("join", lambda: X / Y, x=x, y=y)
    L.val("name", lambda: X.name, "s", x=x) if "://" not in str(X) or X.parent != X else None
    L.val("isabs", lambda: X.is_absolute(), "b", x=x)
    L.val("eq", lambda: X == Y, "b", x=x, y=y)
    L.val("hash", lambda: hash(X) == hash(Y), "b", x=x, y=y)
    same = str(X).split("/")[:3] == str(Y).split("/")[:3] if "://" in str(X) + str(Y) else True
    if X.is_absolute() and Y.is_absolute():
        L.val("rel", lambda: X.relative_to(Y), "s", x=x, y=y)
    if same and "." not in (str(X), str(Y)):
        L.val("lt", lambda: X < Y, "b", x=x, y=y)


def cases(a):
    part, texts = a
    d = prepare()
    out = []
    try:
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        for k in part:
            L = Log(f"case{k}", cwd, [])
            rng = random.Random(k)
            s = "".join(map(chr, texts[k]))
            x = L.new("new", lambda: EPath(s), a=texts[k])
            if x:
                for j in sorted(rng.sample(range(len(texts)), min(10, len(texts)))):
                    s2 = "".join(map(chr, texts[j]))
                    y = L.new("new", lambda: EPath(s2), a=texts[j])
                    L.new("joins", lambda: L.objs[x - 1] / s2, x=x, a=texts[j])
                    if y:
                        algebra(L, x, y, rng.choice([".x", "", ".tar.gz"]))
            out.append(L.d)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    return out


DIRS = ["d", "d 2", "d[1]", "d1", "e.f", "ü", ".dot", "a*b", "acb"]
FILES = ["x.tar", "y.tar", "x[1].tar", "x1.tar", "n", ".h.txt", "z.tar.gz", "w?.txt", "wq.txt", "A.tar", "x*.tar"]


def wild(rng, name):
    """A pattern for a component: items and text."""
    items, text = [], ""
    for ch in name:
        r = rng.random()
        if r < 0.15:
            items.append(dict(k="s", l=[]))
            text += "*"
            if rng.random() < 0.5:
                break
        elif r < 0.25:
            items.append(dict(k="q", l=[]))
            text += "?"
        elif r < 0.35 and ch.isalnum():
            neg = rng.random() < 0.3
            cs = [c for c in "abx1" if c != ch][: rng.randint(1, 2)]
            if not neg:
                cs.append(ch)
            items.append(dict(k="n" if neg else "i", l=t("".join(cs))))
            text += "[" + ("!" if neg else "") + "".join(cs) + "]"
        elif ch in "*?[":
            items.append(dict(k="i", l=t(ch)))
            text += f"[{ch}]"
        elif ch == "]":
            items.append(dict(k="q", l=[]))
            text += "?"
        else:
            items.append(dict(k="c", l=t(ch)))
            text += ch
    # two stars in a row have another meaning
    while "**" in text:
        text = text.replace("**", "*")
    return items, text


def pattern(rng):
    pats, texts = [], []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        if rng.random() < 0.5:
            if not pats or pats[-1]["k"] != "d":
                pats.append(dict(k="d", l=[]))
                texts.append("**")
        else:
            i, s = wild(rng, rng.choice(DIRS))
            pats.append(dict(k="w", l=i))
            texts.append(s)
    i, s = rng.choice([lambda: wild(rng, rng.choice(FILES + DIRS)), lambda: wild(rng, rng.choice(FILES)), lambda: ([dict(k="s", l=[])], "*"), lambda: ([dict(k="s", l=[])] + [dict(k="c", l=[ord(c)]) for c in ".tar"], "*.tar")])()
    pats.append(dict(k="w", l=i))
    texts.append(s)
    return pats, "/".join(texts)


def noise(rng, text):
    """Another way to write the relative path."""
    out = []
    for c in text.split("/"):
        r = rng.random()
        if r < 0.1:
            out.append(".")
        elif r < 0.2:
            out += ["q", ".."]
        elif r < 0.3:
            out.append("")
        out.append(c)
    s = "/".join(out)
    return s.lstrip("/")


def histories(a):
    seed, lo, hi = a
    out = []
    d = prepare()
    try:
        for k in range(lo, hi):
            rng = random.Random(f"{seed}/p23/{k}")
            STORES.clear()
            base = tempfile.mkdtemp(prefix="b[0]" if rng.random() < 0.2 else "b", dir=d)
            cwd = os.path.join(base, "cwd")
            os.makedirs(cwd)
            os.chdir(cwd)
            up, dirs = base, [cwd, base]
            while up != "/":
                up = os.path.dirname(up)
                dirs.append(up)
            L = Log(f"hist{k}", cwd, dirs)
            roots = {"": base, **{r: f"rclone://{r}/buck" for r in REMOTES}}
            where = rng.choice(["", "", "", "one", "Two-2", None])  # None: all

            def rel(kind):
                return "/".join([rng.choice(DIRS) for _ in range(rng.choice([0, 1, 1, 2]))] + [rng.choice(FILES if kind == "f" else DIRS)])

            def obj(kind, w=None):
                """A path for a file or directory, made in one of many ways."""
                w = w if w is not None else where if where is not None else rng.choice(list(roots))
                r = rel(kind)
                text = noise(rng, r)
                m = rng.random()
                if m < 0.25:
                    s = roots[w] + "/" + r
                    return L.new("new", lambda: EPath(s), a=t(s)), w
                x = L.new("new", lambda: EPath(roots[w]), a=t(roots[w]))
                if x is None:
                    return None, w
                if m < 0.6:
                    return L.new("joins", lambda: L.objs[x - 1] / text, x=x, a=t(text)), w
                if m < 0.8:
                    y = L.new("new", lambda: EPath(text), a=t(text))
                    return (L.new("join", lambda: L.objs[x - 1] / L.objs[y - 1], x=x, y=y) if y else None), w
                if m < 0.9 and w == "":
                    s = "../" + r
                    y = L.new("new", lambda: EPath(s), a=t(s))
                    z = y and L.new("abs", lambda: L.objs[y - 1].absolute(), x=y)
                    return (L.new("joins", lambda: L.objs[z - 1] / ".", x=z, a=t(".")) if z else None), w
                y = L.new("joins", lambda: L.objs[x - 1] / text, x=x, a=t(text))
                z = y and L.new("parent", lambda: L.objs[y - 1].parent, x=y)
                n = r.split("/")[-1]
                return (L.new("joins", lambda: L.objs[z - 1] / n, x=z, a=t(n)) if z else None), w

            made = {w: [] for w in roots}

            def again(kind):
                if rng.random() < 0.6:
                    w = where if where is not None else rng.choice(list(roots))
                    if made[w]:
                        return rng.choice(made[w]), w
                return obj(kind)

            def have(w, x):
                """The parent directory exists."""
                return w != "" or os.path.isdir(os.path.dirname(str(L.objs[x - 1])))

            for _ in range(rng.randint(30, 60)):
                op = rng.choice(["write", "write", "write", "read", "size", "file", "dir", "unlink", "move", "mkdir", "mkdir", "glob", "glob", "algebra", "fork"])
                kind = "d" if op == "mkdir" or (op in ("dir", "glob") and rng.random() < 0.9) else "f"
                x, w = again(kind) if op not in ("mkdir", "glob") else obj(kind)
                if x is None:
                    break
                X = L.objs[x - 1]
                if op == "write":
                    c = "".join(rng.choice("ab\ncü") for _ in range(rng.randint(0, 6)))
                    b = rng.random() < 0.5

                    def write():
                        with X.open("wb" if b else "w") as f:
                            f.write(c.encode() if b else c)

                    if "ü" in c:
                        c, b = c.replace("ü", "u"), b
                    if L.do("write", write, x=x, a=t(c)):
                        made[w].append(x)
                elif op == "read":
                    b = rng.random() < 0.5

                    def read():
                        if not b and rng.random() < 0.5:
                            return X.read_text()
                        with X.open("rb" if b else "r") as f:
                            r = f.read()
                        return r.decode() if b else r

                    L.val("read", read, "s", x=x)
                elif op == "size":
                    L.val("size", lambda: X.size(), "n", x=x)
                elif op == "file":
                    L.val("file", lambda: X.is_file(), "b", x=x)
                elif op == "dir":
                    L.val("dir", lambda: X.is_dir(), "b", x=x)
                elif op == "unlink":
                    L.do("unlink", lambda: X.unlink(), x=x)
                elif op == "move":
                    y, _ = obj("f", w)
                    if y and have(w, y) and str(L.objs[y - 1]) != str(X):
                        if L.do("move", lambda: X.move(L.objs[y - 1]), x=x, y=y):
                            made[w].append(y)
                elif op == "mkdir":
                    if w == "":
                        par = not have(w, x) or rng.random() < 0.5
                        L.do("mkdir", (lambda: X.mkdir(parents=True)) if par else (lambda: X.mkdir()), x=x, b=par)
                elif op == "glob":
                    if rng.random() < 0.6:
                        x = L.new("new", lambda: EPath(roots[w]), a=t(roots[w]))
                        X = L.objs[x - 1]
                    pats, text = pattern(rng)
                    got = None
                    try:
                        got = list(X.glob(text))
                    except Exception as e:
                        L.ev("glob", x=x, pats=pats, l=[t(f"error {type(e).__name__}")], text=text)
                        break
                    L.ev("glob", x=x, pats=pats, l=[t(str(p)) for p in got], text=text)
                    for p in got:
                        L.objs.append(p)
                        if str(p).rsplit("/", 1)[-1] in FILES:
                            made[w].append(len(L.objs))
                elif op == "fork":
                    # the client is made again in a forked process
                    if isinstance(X.fs, Fake):
                        X.fs._pid = -1
                else:
                    y, _ = obj(rng.choice("fd"))
                    if y:
                        algebra(L, x, y, rng.choice([".x", "", ".tar.idx"]))
            seen = []
            for r, _, fs in os.walk(base):
                for f in fs:
                    with open(os.path.join(r, f), "rb") as h:
                        seen.append([t(os.path.join(r, f)), t(h.read().decode())])
            for n, acc in REMOTES.items():
                for p, f in STORES.get(acc, {}).items():
                    seen.append([t(f"rclone://{n}{p}"), t(f.getvalue().decode())])
            for acc in STORES:
                if acc not in REMOTES.values():
                    seen.append([t(f"unknown account {acc}"), []])
            L.ev("seen", l=seen)
            out.append(L.d)
            os.chdir("/")
            shutil.rmtree(base, ignore_errors=True)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    o = scratch("paths.json")
    cfg = f"SPECIFICATION Spec\nCONSTANTS Emit = TRUE\nMaxLen = {5 if T else 4}\nRemotes = TRUE\nINVARIANTS Agree Laws\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Path", check_model("Path", cfg, env={"OUT": o}))
    texts = [json.loads(x)["s"] for x in open(o)]
    traces = [x for r in collect(c, cases, [(range(k, len(texts), 16), texts) for k in range(16)], what="cases", timeout=600) for x in r]
    N = 6000 if T else 600
    st = [x for r in collect(c, histories, [(vlib.SEED, k, k + 20) for k in range(0, N, 20)], what="histories") for x in r]
    for x in st[:: max(len(st) // 4, 1)]:
        c.sample(dict(events=[{k: "".join(map(chr, v)) if k in "sa" and isinstance(v, list) else v for k, v in e.items() if k in "esaxyb"} for e in x["evs"][:6]]))
    c.run_traces("PathTrace", traces, name="cases")
    c.run_traces("PathTrace", st, name="histories", chunk=1500)
    return c.finish()
