"""P22: preparing datasets (Prepare.tla)."""

import os
import random
import re
import tarfile

import braceexpand
import yaml

import vlib
import tars
from vlib import Check, check_model, collect
from wload import TaskEncoder, quiet, tmpdir, wconf, workers
from p18 import prepare, read_index

import megatron.energon as energon
from megatron.energon import Cooker, TextSample, basic_sample_keys, get_val_dataset
from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator


def cook(s):
    return TextSample(**basic_sample_keys(s), text="")


class Encoder(TaskEncoder):
    cookers = [Cooker(cook)]


class Crash(BaseException):
    pass


def shard_files(rng, d, names, bad=0.25, text=False):
    """Writes shards; list of records."""
    res = []
    for k, name in enumerate(names):
        os.makedirs(os.path.dirname(f"{d}/{name}"), exist_ok=True)
        p = f"{d}/{name}"
        if text:
            es = []
            for b in range(1, rng.randint(1, 4) + 1):
                nm = f"s{k:02d}{b:03d}"
                es.append(dict(k="f", b=b, x=1, c=b, name=f"{nm}.txt", base=nm))
                if text == "two":
                    es.append(dict(k="f", b=b, x=2, c=b, name=f"{nm}.json", base=nm))
        else:
            es = tars.entries(rng, lo=1, hi=6, rare=0.03)
            if rng.random() < 0.08:
                es = [e for e in es if e["k"] != "f"]
        if text:
            import io

            with tarfile.open(p, "w") as tf:
                for e in es:
                    e["p"] = tf.offset
                    b = (b"text %d" if e["x"] == 1 else b'{"a": {"b": "text %d"}}') % (100 * k + e["b"])
                    ti = tarfile.TarInfo(e["name"])
                    ti.size = len(b)
                    tf.addfile(ti, io.BytesIO(b))
                end = tf.offset
        else:
            end = tars.write(p, es, rng)
        good = True
        if rng.random() < bad:
            good = False
            kind = rng.choice(["garbage", "cut", "missing", "empty"])
            if kind == "garbage":
                with open(p, "wb") as f:
                    f.write(rng.randbytes(2048))
            elif kind == "cut" and any(e["k"] == "f" and len(tars.data(random.Random(0), e["c"])) for e in es):
                # inside of the contents of the last file
                last = [e for e in es if e["k"] == "f"][-1]
                with open(p, "r+b") as f:
                    with tarfile.open(p) as tf:
                        m = [x for x in tf.getmembers() if x.isreg() and x.name == last["name"]][-1]
                    f.truncate(m.offset_data + m.size // 2)
            elif kind == "empty":
                open(p, "w").close()
            else:
                os.remove(p)
        names_in = []
        for e in es:
            if e["k"] == "f" and (not names_in or names_in[-1] != e["base"]):
                names_in.append(e["base"])
        res.append(dict(name=name, es=es, end=end, good=good, bases=names_in, count=len(names_in)))
    return res


def listing(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}


def idx_name(n):
    return re.sub(r"\.tar$", ".tar.idx", n)


def read_meta(d, names):
    num = {n: k + 1 for k, n in enumerate(names)}
    with open(f"{d}/.nv-meta/.info.yaml") as f:
        info = yaml.safe_load(f)["shard_counts"]
    with open(f"{d}/.nv-meta/split.yaml") as f:
        sp = yaml.safe_load(f)
    return [[num.get(n, 0), c] for n, c in info.items()], {p: [num.get(n, 0) for n in v] for p, v in sp["split_parts"].items()}, sp


def load(d, part, shards):
    num = {s["name"]: k + 1 for k, s in enumerate(shards)}
    key = {(s["name"], b): j + 1 for s in shards for j, b in enumerate(s["bases"])}
    out = []
    for s in workers(get_val_dataset(d, split_part=part, worker_config=wconf(0), batch_size=None, task_encoder=Encoder()))[0].take():
        k = next((n for n in num if s.__key__.startswith(n + "/")), None)
        out.append([num.get(k, 0), key.get((k, s.__key__[len(k or "") + 1 :]), 0)])
    return out


def spec_shards(shards):
    return [dict(good=s["good"], count=s["count"], keys=list(range(1, s["count"] + 1))) for s in shards]


def names(rng, n):
    st = rng.choice(["flat", "sub", "odd"])
    if st == "flat":
        return [f"shard_{k:03d}.tar" for k in range(n)]
    if st == "sub":
        return [f"{rng.choice(['a', 'b', 'a/c'])}/shard_{k:03d}.tar" for k in range(n)]
    return [rng.choice(["x.y_%d.tar", "train-%d.tar", "val-%d.tar", "sub.d/s%d.tar"]) % k for k in range(n)]


def patterns(rng, ns):
    res = []
    for p in ["train", "val", "test"][: rng.randint(1, 3)]:
        x = rng.choice(["re", "brace", "list", "all", "pre"])
        if x == "re":
            pat = rng.choice([".*[02468].tar", "a/.*", "train.*", ".*1.*", "shard_00[0-2].*"])
        elif x == "brace":
            pat = rng.choice(["shard_{000..002}.tar", "{a,b}/.*", "{train,val}-[0-3].tar", "x.y_{1..3}.*"])
        elif x == "list":
            pat = "{" + ",".join(re.escape(n) for n in rng.sample(ns, min(2, len(ns)))) + ",zz}"
        elif x == "pre":
            pat = rng.choice(ns)[:-4]
        else:
            pat = ".*"
        res.append((p, pat))
    return res


def job(a):
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p22/{k}")
        with tmpdir() as d, quiet():
            ns = names(rng, rng.randint(1, 7))
            shards = shard_files(rng, d, ns, bad=rng.choice([0, 0.3]))
            if not any(s["good"] and s["count"] for s in shards):
                continue
            before = listing(d)
            mode = rng.choice(["ratio", "ratio", "pattern"])
            kw = {}
            ratio, match, shuffled = [], [], False
            if mode == "ratio":
                ratio = [rng.choice([0, 1, 1, 2, 3, 5, 8]) for _ in range(rng.randint(1, 4))]
                if not any(ratio):
                    ratio[0] = 1
                scale = rng.choice([1, 0.1, 1 / 7, 1 / sum(ratio)])
                pn = ["train", "val", "test", "x"][: len(ratio)]
                kw["split_parts_ratio"] = [(p, r * scale) for p, r in zip(pn, ratio)]
                shuffled = rng.random() < 0.5
                kw["shuffle_seed"] = rng.randint(0, 99) if shuffled else None
            else:
                pats = patterns(rng, ns)
                pn = [p for p, _ in pats]
                kw["split_parts_ratio"] = None
                kw["split_parts_patterns"] = pats
                match = [[any(re.match(x, n) for x in braceexpand.braceexpand(pt)) for n in ns] for _, pt in pats]
            calls = []
            if rng.random() < 0.3:

                def prog(it, n=None):
                    for x in it:
                        calls.append(n)
                        yield x

                kw["progress_fn"] = prog
            paths = list(ns)
            if len(ns) > 2 and all(n.startswith("shard_") for n in ns) and rng.random() < 0.7:
                paths = ["shard_{000..%03d}.tar" % (len(ns) - 1)]

            def run(serial):
                if serial:
                    return prepare(d, paths, **kw)
                return WebdatasetPreparator.prepare_dataset(d, paths, workers=rng.choice([1, 2, 5]), **kw)

            ev = []
            if rng.random() < 0.3:
                # a first run which is killed
                pid = os.fork()
                if pid == 0:
                    at = rng.randint(0, sum(len(s["es"]) for s in shards))
                    orig = tarfile.TarFile.next

                    def nxt(self):
                        nonlocal at
                        at -= 1
                        if at < 0:
                            os._exit(9)
                        return orig(self)

                    tarfile.TarFile.next = nxt
                    try:
                        prepare(d, paths, **kw)
                    except BaseException:
                        pass
                    os._exit(0)
                os.waitpid(pid, 0)
                ev.append(dict(e="died", p=0, v=[[j + 1, len(read_index(f"{d}/{idx_name(n)}"))] for j, n in enumerate(ns) if os.path.exists(f"{d}/{idx_name(n)}")]))
            found = run(rng.random() < 0.6)
            info, sp, raw = read_meta(d, ns)
            allp = {e["name"][len(e["base"]) + 1 :] for s in shards if s["good"] for e in s["es"] if e["k"] == "f"}
            pnum = {p: j + 1 for j, p in enumerate(tars.MANY)}
            after = listing(d)
            ev.append(dict(e="info", p=0, v=info))
            ev.append(dict(e="split", p=0, v=[sp.get(p, [0]) for p in pn]))
            ev.append(dict(e="idx", p=0, v=[j + 1 for j, n in enumerate(ns) if idx_name(n) in after]))
            ok = before | {idx_name(n) for n in ns} | {".nv-meta/.info.yaml", ".nv-meta/split.yaml"}
            died = ev[0]["e"] == "died"
            ev.append(dict(e="left", p=0, v=sorted(x for x in after - ok if not (died and x.endswith(".tmp")))))
            ev.append(dict(e="found", p=0, v=sorted(pnum.get(p, 0) for p in found)))
            base = dict(mode=mode, ratio=ratio, match=match, shuffled=shuffled, shards=spec_shards(shards), all=sorted(pnum[p] for p in allp))
            with open(f"{d}/.nv-meta/dataset.yaml", "w") as f:
                f.write("__module__: megatron.energon\n__class__: CrudeWebdataset\nauto_decode: false\n")
            for j, p in enumerate(pn):
                if sp.get(p):
                    ev.append(dict(e="load", p=j + 1, v=load(d, p, shards)))
            # again, with other parallelism
            run(rng.random() < 0.3)
            _, sp2, _ = read_meta(d, ns)
            ev.append(dict(e="again", p=0, v=[sp2.get(p, [0]) for p in pn]))
            # only the index
            for n in ns:
                if os.path.exists(f"{d}/{idx_name(n)}"):
                    os.remove(f"{d}/{idx_name(n)}")
            prepare(d, ns, tar_index_only=True)
            ev.append(dict(e="idx", p=0, v=[j + 1 for j, n in enumerate(ns) if os.path.exists(f"{d}/{idx_name(n)}")]))
            ev.append(dict(e="split", p=0, v=[read_meta(d, ns)[1].get(p, [0]) for p in pn]))
            out.append(("P", dict(name=f"prepare{k} {mode} {kw.get('split_parts_ratio') or kw.get('split_parts_patterns')} {ns}", ev=ev, **base)))
            for s in shards:
                if s["good"]:
                    iev = [dict(e="c", b=0, i=c, parts=[]) for n, c in info if n and ns[n - 1] == s["name"]]
                    if s["count"]:
                        iev.append(dict(e="x", b=0, i=0, parts=read_index(f"{d}/{idx_name(s['name'])}")))
                        # the content shown for the shard
                        con = list(WebdatasetPreparator.iter_dataset_content(f"{d}/{s['name']}", set(tars.MANY)))
                        for q, x in enumerate(con):
                            iev.append(dict(e="d", b=next((e["b"] for e in s["es"] if e["base"] == s["bases"][q]), 0) if q < len(s["bases"]) else 0, i=q, parts=sorted([pnum.get(n, 0), tars.content(v)] for n, v in x.items())))
                        iev.append(dict(e="e", b=0, i=0, parts=[]))
                    if iev:
                        out.append(("T", dict(name=f"shard {s['name']} of prepare{k}", es=tars.spec(s["es"]), end=s["end"], off=0, cnt=s["count"], excl=[], filt=list(range(1, len(tars.MANY) + 1)), ev=iev)))
    return out


LOADER = """
def sample_loader(raw):
    return dict(__key__=raw["__key__"], text=raw["txt"])
def part_filter(p):
    return p == "txt"
"""


def cli_job(a):
    """The command line tool."""
    import inspect

    from click.testing import CliRunner
    from megatron.energon import Sample
    from megatron.energon.tools.prepare import command

    seed, lo, hi = a
    classes = [n for n, c in inspect.getmembers(energon) if isinstance(c, type) and issubclass(c, Sample)]
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p22c/{k}")
        with tmpdir() as d:
            with quiet():
                ns = sorted(names(rng, rng.randint(1, 6)))
                shards = shard_files(rng, d, ns, bad=0, text=rng.choice(["one", "two"]))
            two = any(e["x"] == 2 for s in shards for e in s["es"])
            kind = ["map", "crude", "loader", "json"][k % 4]
            if kind == "json" and not two:
                kind = "map"
            args = [d, "--num-workers", str(rng.choice([1, 2])), rng.choice(["--progress", "--no-progress"])]
            ratio, match, shuffled = [], [], False
            if rng.random() < 0.3:
                args.append("--shuffle-tars")
                shuffled = True
            excl = None
            if rng.random() < 0.3 and len(ns) > 1:
                excl = re.escape(rng.choice(ns)) + "$"
                args += ["--exclude", excl]
            left = [n for n in ns if not (excl and re.search(excl, n))]
            inp = ""
            if rng.random() < 0.4:
                mode = "pattern"
                pats = [("train", ".*"), ("val", rng.choice(["shard_{000..001}.tar", "train.*", re.escape(left[0])]))]
                match = [[any(re.match(x, n) for x in braceexpand.braceexpand(pt)) for n in left] for _, pt in pats]
                for p, pt in pats:
                    args += ["--split-parts", f"{p}:{pt}"]
                pn = ["train", "val"]
            else:
                mode = "ratio"
                ratio = rng.choice([[1, 0, 0], [8, 1, 1], [5, 2, 3], [1, 1, 1]])
                inp += rng.choice([", ", ","]).join(str(r / rng.choice([1, 1])) for r in ratio) + "\n"
                pn = ["train", "val", "test"]
            if kind == "crude":
                inp += f"y\n{len(classes)}\n"
            elif kind == "loader":
                inp += f"y\n{classes.index('TextSample')}\nn\n"
            else:
                inp += f"y\n{classes.index('TextSample')}\ny\n{'txt' if kind == 'map' else 'json[a][b]'}\n"
            with quiet():
                r = CliRunner().invoke(command, args, input=inp)
            if r.exception is not None:
                if isinstance(r.exception, SystemExit):
                    raise AssertionError(f"CLI: {r.output[-500:]}")
                r.exception._in_repo = True
                raise r.exception
            if kind == "loader":
                with open(f"{d}/.nv-meta/sample_loader.py", "w") as f:
                    f.write(LOADER)
            kept = [s for s in shards if s["name"] in left]
            info, sp, raw = read_meta(d, left)
            ev = [dict(e="info", p=0, v=info), dict(e="split", p=0, v=[sp.get(p, [0]) for p in pn])]
            for j, p in enumerate(pn):
                if sp.get(p):
                    with quiet():
                        ev.append(dict(e="load", p=j + 1, v=load_cli(d, p, kept, kind, shards)))
            out.append(("P", dict(name=f"cli{k} {args[1:]} {inp!r}", mode=mode, ratio=ratio, match=match, shuffled=shuffled, shards=spec_shards(kept), all=[], ev=ev)))
    return out


def load_cli(d, p, kept, kind, shards):
    """Loads with the written dataset.yaml; the text tells the sample."""
    num = {s["name"]: k + 1 for k, s in enumerate(kept)}
    pos = {s["name"]: k for k, s in enumerate(shards)}

    class Enc(TaskEncoder):
        if kind == "crude":
            cookers = [Cooker(lambda s: TextSample(**basic_sample_keys(s), text=s["txt"]))]

    res = []
    for s in workers(get_val_dataset(d, split_part=p, worker_config=wconf(0), batch_size=None, task_encoder=Enc()))[0].take():
        name = next((n for n in num if s.__key__.startswith(n + "/")), None)
        b = next((j + 1 for j, x in enumerate(kept[num[name] - 1]["bases"]) if s.__key__ == f"{name}/{x}"), 0) if name else 0
        if not name or s.text != f"text {100 * pos[name] + b}":
            b = 0
        res.append([num.get(name, 0), b])
    return res


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxShards = {}\nMaxCount = 2\nNWorkers = 2\nINVARIANTS IndexComplete Recorded\nCHECK_DEADLOCK FALSE\n"
    c.add_model("Prepare", check_model("Prepare", cfg.format(4 if T else 3)))
    n, m = (2400, 400) if T else (240, 48)
    res = [t for p in collect(c, job, [(vlib.SEED, k, k + 10) for k in range(0, n, 10)], what="prepare") for t in p]
    res += [t for p in collect(c, cli_job, [(vlib.SEED, k, k + 6) for k in range(0, m, 6)], what="command") for t in p]
    pt = [t for k, t in res if k == "P"]
    for t in pt[:: max(len(pt) // 4, 1)]:
        c.sample(dict(name=t["name"], ev=t["ev"][:5]))
    c.run_traces("PrepareTrace", pt)
    c.run_traces("TarShardTrace", [t for k, t in res if k == "T"])
    return c.finish()
