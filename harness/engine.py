"""Random pipelines, driving them through the real loader, recording traces."""

import contextlib
import os
import pickle
import random

_null = open(os.devnull, "w")

import vlib
from vdata import energon
from vpipe import Hang, Log, build, key, norm, shape
from vloader import Eager, Lazy, Random, shutdown, virtualize

from megatron.energon import WorkerConfig, get_loader, get_savable_loader  # noqa: E402
from megatron.energon.errors import FatalSampleError  # noqa: E402

E_TOKEN = "E"


def wconf(n, rank=0, world=1, seed_offset=0):
    return WorkerConfig(rank=rank, world_size=world, num_workers=n, seed_offset=seed_offset)


class Run:
    """One (real) loader over the pipeline `nodes`."""

    def __init__(self, nodes, n, *, sched=None, log=None, probes=True, rank=0, world=1, ck=0, seed_offset=0, transport=True):
        self.nodes = nodes
        self.n = n
        self.wc = wconf(n, rank, world, seed_offset)
        self.log = log or Log()
        self.ds = build(nodes, self.wc, self.log, probes)
        kw = {}
        if n > 0:
            kw = dict(checkpoint_every_sec=-1, checkpoint_every_min_n_samples=ck or None)
        self.loader = virtualize(get_savable_loader(self.ds, worker_config=self.wc, **kw), sched or Lazy())
        self.it = None
        self.dead = False
        self.samples = []

    def pull(self, k):
        """Take k tokens: outputs and ends of epochs."""
        with contextlib.redirect_stdout(_null), contextlib.redirect_stderr(_null):
            return self._pull(k)

    def _pull(self, k):
        res = []
        while len(res) < k and not self.dead:
            if self.it is None:
                self.it = iter(self.loader)
            try:
                s = next(self.it)
                self.samples.append(s)
                res.append(self.shape(s))
            except StopIteration:
                self.it = None
                res.append(E_TOKEN)
            except FatalSampleError:
                self.dead = True
                res.append("X")
        return res

    def save(self):
        # The state goes to disk
        return pickle.loads(pickle.dumps(self.loader.save_state_rank()))

    def restore(self, state):
        with contextlib.redirect_stdout(_null):
            self.loader.restore_state_rank(state)

    def restore_sample(self, sample):
        with contextlib.redirect_stdout(_null):
            k = sample["__restore_key__"] if isinstance(sample, dict) else sample.__restore_key__
            return self.shape(self.loader.restore_sample(k))

    def shape(self, s):
        return shape(s)

    def close(self):
        with contextlib.redirect_stdout(_null):
            shutdown(self.loader)


def traces_of(name, nodes, n, log):
    P = norm(nodes)
    return [
        {"name": f"{name}/w{w}", "nodes": P, "w": w, "W": max(n, 1) if n else 1, "ev": log.ev.get(w, [])}
        for w in range(max(n, 1))
        if log.ev.get(w)
    ]


# --------------------------------------------------------------------------------------------
# Random pipelines
# --------------------------------------------------------------------------------------------


def finite(nodes, i):
    n = nodes[i - 1]
    if n["t"] in ("blend", "mix") or (n["t"] == "repeat" and n["n"] == 0):
        return False
    if n["t"] in ("epochize", "limit", "leaf"):
        return True
    return all(finite(nodes, c) for c in n["c"])


class Gen:
    """Random pipelines around the node types of one family."""

    OUTER = ("repeat", "epochize", "shuffle", "map", "filter", "limit", "batch")

    def __init__(self, rng, family, n, *, depth=2, errors=True, savable=True):
        self.rng = rng
        self.family = family
        self.W = max(n, 1)
        self.n = n
        self.next_id = 0
        self.leaves = 0
        self.nodes = []
        self.depth = depth
        self.errors = errors
        self.savable = savable

    def add(self, **kw):
        self.nodes.append(kw)
        return len(self.nodes)

    def ids_below(self, i):
        n = self.nodes[i - 1]
        if n["t"] == "leaf":
            return [x for it in n["items"] for x in it]
        return [x for c in n["c"] for x in self.ids_below(c)]

    def some(self, ids, p=0.35, k=2):
        if not ids or self.rng.random() > p or not self.errors:
            return []
        return self.rng.sample(ids, min(len(ids), self.rng.randint(1, k)))

    def leaf(self, lo=0, hi=7):
        items = []
        for _ in range(self.W):
            k = self.rng.randint(max(lo, 1) if self.rng.random() < 0.8 else lo, hi)
            items.append(list(range(self.next_id, self.next_id + k)))
            self.next_id += k
        self.leaves += 1
        return self.add(t="leaf", name=f"L{self.leaves}", items=items)

    def tables(self, c, gen, mid=True):
        ids = self.ids_below(c)
        d = dict(skip=self.some(ids), fail=self.some(ids))
        if gen and mid:
            d["skipmid"] = self.some(ids)
            d["failmid"] = self.some(ids)
        if self.errors and self.rng.random() < 0.15:
            d["defh"] = True
        return d

    def finite(self, i):
        return finite(self.nodes, i)

    def has_all(self, i):
        """Every worker has samples (by construction, not counting failures)."""
        n = self.nodes[i - 1]
        if n["t"] == "leaf":
            return all(n["items"])
        if n["t"] in ("filter", "limit", "epochize"):
            return False
        f = any if n["t"] in ("concat", "blend", "mix") else all
        return f(self.has_all(c) for c in n["c"])

    def node(self, t, d):
        r = self.rng
        if t in ("concat", "blend", "mix"):
            k = r.randint(1, 3) if r.random() < 0.3 else r.randint(2, 3)
            cs = []
            for j in range(k):
                while True:
                    mark = len(self.nodes)
                    c = self.sub(d - 1)
                    if t != "concat" or self.finite(c):
                        break
                    del self.nodes[mark:]
                if t != "concat" and j == 0:
                    while not self.has_all(c):
                        del self.nodes[mark:]
                        c = self.leaf(1)
                cs.append(c)
            if t == "concat":
                return self.add(t=t, c=cs)
            w = [r.choice([0.25, 0.5, 1, 1, 2, 3]) for _ in cs]
            if r.random() < 0.25 and len(cs) > 1:
                w[-1] = 0
            kw = dict(t=t, c=cs, w=w)
            if t == "mix":
                kw.update(n=r.randint(1, 3), gen=r.choice([0, 0, 2]))
            return self.add(**kw)
        c = self.sub(d - 1)
        ids = self.ids_below(c)
        if t == "repeat":
            inf = r.random() < 0.4 and self.has_all(c)
            if not self.finite(c):
                c2 = self.add(t="limit", c=[c], n=r.randint(1, 6))
                return self.add(t="repeat", c=[c2], n=r.randint(1, 3))
            return self.add(t=t, c=[c], n=0 if inf else r.randint(1, 3))
        if t == "shuffle":
            return self.add(t=t, c=[c], n=r.randint(1, 5))
        if t == "epochize":
            if not self.has_all(c):
                while True:
                    c = self.leaf(1)
                    if self.has_all(c):
                        break
            return self.add(t=t, c=[c], n=r.randint(1, 9))
        if t == "limit":
            return self.add(t=t, c=[c], n=r.randint(0 if r.random() < 0.1 else 1, 9))
        if t == "filter":
            return self.add(t=t, c=[c], drop=self.some(ids, 0.8, 3))
        if t == "map":
            gen = r.choice([0, 0, 1, 2, 3])
            kw = self.tables(c, gen)
            if self.errors and r.random() < 0.06:
                kw["fatal"] = self.some(ids, 1, 1)
            return self.add(t=t, c=[c], gen=gen, **kw)
        if t == "itermap":
            rep = [] if self.savable else self.some(ids, 0.5)
            return self.add(t=t, c=[c], drop=self.some(ids, 0.5), rep=rep, fail=self.some(ids), failmid=self.some(rep))
        if t == "batch":
            gen = r.choice([0, 0, 0, 2])
            return self.add(t=t, c=[c], n=r.randint(1, 4), dl=r.random() < 0.4, gen=gen, **self.tables(c, gen))
        if t == "group":
            mod = r.randint(1, 3)
            fixed = r.random() < 0.5
            return self.add(
                t=t, c=[c], n=r.randint(1, 3) if fixed else 0, mod=mod,
                sizes=[r.randint(1, 3) for _ in range(mod)], dl=r.random() < 0.4,
                skipg=self.some(ids, 0.25), failg=self.some(ids, 0.25), **self.tables(c, 0),
            )  # fmt: skip
        if t == "pack":
            gen = r.choice([0, 0, 2])
            return self.add(
                t=t, c=[c], n=r.randint(1, 5), k=r.randint(1, 3), rev=r.random() < 0.4,
                lose=self.some(ids, 0.3, 1), skipp=self.some(ids, 0.2, 1), failp=self.some(ids, 0.2, 1),
                gen=gen, **self.tables(c, gen),
            )  # fmt: skip
        raise AssertionError(t)

    def sub(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.4:
            return self.leaf()
        while True:
            t = r.choice(self.family + self.family + self.OUTER)
            # Epochs are the outermost wrapper; elsewhere their end is not part of the saved state
            if t != "epochize" or not self.savable:
                return self.node(t, d)

    def build(self, root_type=None):
        r = self.rng
        while True:
            self.nodes, self.next_id, self.leaves = [], 0, 0
            i = self.node(root_type or r.choice(self.family), self.depth)
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                if self.savable and self.nodes[i - 1]["t"] == "epochize":
                    break
                t = r.choice(("epochize", "repeat", "shuffle", "limit", "batch", "map"))
                c = i
                if t == "epochize":
                    if self.has_all(c):
                        i = self.add(t=t, c=[c], n=r.randint(1, 9))
                elif t == "repeat":
                    if self.finite(c):
                        i = self.add(t=t, c=[c], n=r.randint(1, 2))
                elif t == "shuffle":
                    i = self.add(t=t, c=[c], n=r.randint(1, 4))
                elif t == "limit":
                    i = self.add(t=t, c=[c], n=r.randint(1, 9))
                elif t == "batch":
                    i = self.add(t=t, c=[c], n=r.randint(1, 3))
                elif t == "map":
                    i = self.add(t=t, c=[c], gen=r.choice([0, 2]))
            if len(self.nodes) <= 9 and not self.buffered_mix():
                return self.nodes

    def buffered_mix(self):
        """Mixed batches cannot be restored, so they cannot be buffered."""
        below = lambda i: self.nodes[i - 1]["t"] == "mix" or any(below(c) for c in self.nodes[i - 1].get("c", []))
        return any(
            (n["t"] in ("shuffle", "batch", "group", "pack", "mix") or n.get("gen")) and any(below(c) for c in n["c"]) for n in self.nodes
        )


def node_trace(nodes, n, rng, name, *, tokens=14, restores=True, sched=None, rank=0, world=1):
    """Trace(s) of one pipeline for the wrapper specification; with restores if there are no
    workers."""
    log = Log()
    log.limit = 600
    r = Run(nodes, n, log=log, sched=sched, rank=rank, world=world)
    try:
        if n == 0 and restores and rng.random() < 0.7:
            r.pull(rng.randint(0, tokens // 2))
            for slot in (1, 2):
                if r.dead:
                    break
                state = r.save()
                log.add(0, n=0, e="s", v=[slot])
                r.pull(rng.randint(0, 4))
                r = Run(nodes, n, log=log, rank=rank, world=world)
                r.restore(state)
                log.add(0, n=0, e="R", v=[slot])
                r.pull(rng.randint(1, tokens // 2))
        else:
            r.pull(tokens)
    except Hang:
        pass
    except RuntimeError as e:
        if "Pre packer did not yield" not in str(e):
            raise
    r.close()
    return traces_of(name, nodes, n, log)


def worker_of(nodes, tok):
    """Every worker has its own items, so a value tells its worker."""
    if tok in (E_TOKEN, "X"):
        return -1
    k = key(tok[0])
    for n in nodes:
        if n["t"] == "leaf":
            for w, items in enumerate(n["items"]):
                if k in items:
                    return w
    return 0


def entry(nodes, tok):
    if tok == E_TOKEN:
        return {"w": -1, "v": []}
    if tok == "X":
        return {"w": -1, "v": [-97]}
    return {"w": worker_of(nodes, tok), "v": list(tok[0]) + [-99] + list(tok[1])}


def stream_trace(mk_run, ent, rng, name, what, n, *, tokens=16, ref_extra=10, keys=True, slots=3, strict_all=False, fin=True, **info):
    """Save/restore history of a loader; mk_run creates a fresh one, ent encodes a token."""
    ref_run = mk_run()
    ref = ref_run.pull(tokens + ref_extra)
    ref_run.close()
    ev = []
    pos = 0
    r = mk_run()

    def deliver(k):
        nonlocal pos
        k = min(k, tokens - pos - 1)
        for t in r.pull(max(k, 0)):
            ev.append({"e": "d", "k": 0, **ent(t)})
            pos += 1

    deliver(rng.randint(0, tokens // 2))
    at = {}
    for slot in range(1, slots + 1):
        if r.dead or pos > tokens - 2:
            break
        state = r.save()
        at[slot] = (pos, state)
        ev.append({"e": "s", "k": slot, "w": 0, "v": []})
        deliver(rng.randint(0, 3))
        r.close()
        # usually the newest state, sometimes an older one once more
        use = slot if rng.random() < 0.75 else rng.choice(list(at))
        r = mk_run()
        pos, st = at[use]
        r.restore(st)
        ev.append({"e": "R", "k": use, "w": 0, "v": []})
        deliver(rng.randint(1, tokens // 2))
    r.close()
    if keys and ref_run.ds.can_restore_sample():
        rr = mk_run()
        j = 0
        for p, t in enumerate(ref, 1):
            if t in (E_TOKEN, "X"):
                continue
            s = ref_run.samples[j]
            j += 1
            if rng.random() < 0.5:
                got = rr.restore_sample(s)
                ev.append({"e": "g", "k": p, "w": 0, "v": ent(got)["v"]})
        rr.close()
    return {"name": name, "what": what, "W": max(n, 1), "all": strict_all, "fin": fin, "n": n, "ref": [ent(t) for t in ref], "ev": ev, **info}


def resume_trace(nodes, n, rng, name, what, *, sched=None, ck=0, rank=0, world=1, **kw):
    """Stream of a pipeline under save and restore (any number of workers)."""
    mk = sched or (lambda: Lazy())

    def run():
        log = Log()
        log.on = False
        log.limit = 1500
        return Run(nodes, n, log=log, probes=False, sched=mk(), ck=ck, rank=rank, world=world)

    try:
        return stream_trace(run, lambda t: entry(nodes, t), rng, name, what, n, nodes=nodes, fin=finite(nodes, len(nodes)), **kw)
    except RuntimeError as e:
        if "Pre packer did not yield" not in str(e):
            raise
        return None
