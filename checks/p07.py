"""P07: the protocol between loader and workers (LoaderOps.tla, LoaderProtocol.tla)."""

import copy
import dataclasses
import gc
import itertools
import multiprocessing
import os
import pickle
import random
import time

import vlib
from vlib import Check, check_model, collect
from vdata import Leaf, LeafMerged
from vloader import Lazy, Random, Script, shutdown, virtualize
from wload import kill_children, quiet, wconf

from megatron.energon import get_savable_loader


class SlowLeaf(Leaf):
    """Takes its time for the first sample of an iteration (commands may arrive meanwhile)."""

    slow = 0.0
    every = 0.0

    def save_state(self):
        if self.slow:
            time.sleep(self.slow)
        return super().save_state()

    def __iter__(self):
        if self.slow:
            time.sleep(self.slow)
        for s in super().__iter__():
            if self.every:
                time.sleep(self.every * (1 + self.worker_config.rank_worker_id()))
            yield s


def items(lens):
    out, k = [], 0
    for n in lens:
        out.append(list(range(k, k + n)))
        k += 1000
    return out


def find(o, t):
    """The first object of the type within dataclasses."""
    if isinstance(o, t):
        return o
    if dataclasses.is_dataclass(o):
        for f in dataclasses.fields(o):
            r = find(getattr(o, f.name), t)
            if r is not None:
                return r
    return None


def describe(state, n):
    """What the saved state says; empty if it cannot be read (then only its use is judged)."""
    try:
        d = state.dataset_state
        pos = find(d, LeafMerged)
        return dict(c=[int(x) for x in d.state.sample_index], o=[int(x) for x in d.offset], p=[-1] * n if pos is None else list(pos.pos), x=int(state.next_worker_id))
    except (AttributeError, TypeError):
        return dict(c=[], o=[], p=[], x=-1)


class Rec:
    """A loader with virtual workers whose events are recorded."""

    def __init__(self, lens, ck, sched=None, slow=0.0, default=False):
        self.lens, self.n, self.ck = lens, len(lens), ck
        self.ev = []
        self.states = []
        self.slow = slow
        # the loader chooses the distance of the checkpoints itself: 2 * n
        self.given = None if default else ck
        self.sched = sched or Script()
        self.loader = None
        self.fresh()

    def fresh(self, e=None, k=0):
        if self.loader is not None:
            shutdown(self.loader)
        wc = wconf(self.n)
        ds = SlowLeaf("L", items(self.lens), worker_config=wc)
        ds.slow = self.slow
        self.loader = virtualize(get_savable_loader(ds, checkpoint_every_sec=-1, checkpoint_every_min_n_samples=self.given), self.sched)
        self.loader._vlisten = self.listen
        self.it = None
        if e:
            self.add(e, k=k)

    def add(self, e, **kw):
        self.ev.append({"e": e, "s": 0, "x": 0, "k": 0, "c": [], "o": [], "p": [], **kw})

    def listen(self, e, s=0, data=None):
        if e == "w":
            if data is None:
                return self.add("w", s=s, k=-2)
            if data[0] == "stop":
                return self.add("w", s=s, k=-1)
            if data[0] == "error":
                raise data[2]
            v = data[2][2].val[0]
            return self.add("w", s=s, x=v // 1000, k=v % 1000)
        self.add(e)

    @property
    def viter(self):
        return getattr(self.loader, "_viter", None)

    def next(self):
        if self.it is None:
            self.it = iter(self.loader)
        try:
            v = next(self.it).val[0]
            self.add("d", x=v // 1000, k=v % 1000)
        except StopIteration:
            self.it = None
            self.add("E")

    def step(self, w):
        if self.it is None or not self.viter.workers[w].tasks:
            return False
        return self.viter.workers[w].step()

    def save(self):
        st = self.loader.save_state_rank()
        self.states.append(pickle.dumps(st))
        self.add("s", k=len(self.states), **describe(st, self.n))

    def restore(self, k):
        self.fresh("R", k)
        self.loader.restore_state_rank(pickle.loads(self.states[k - 1]))

    def trace(self, name):
        if self.loader is not None:
            shutdown(self.loader)
            self.loader = None
        return dict(name=name, n=self.n, len=list(self.lens), ckmin=self.ck, ev=self.ev)


def play(lens, ck, acts, name, slow=0.0, default=False):
    """Runs a sequence of actions; None if one is not possible."""
    r = Rec(lens, ck, slow=slow, default=default)
    with quiet():
        for a in acts:
            if a == "n":
                r.next()
            elif a == "s":
                r.save()
            elif a == "R":
                if not r.states:
                    return None
                r.restore(len(r.states))
            elif not r.step(a):
                r.trace(name)
                return None
    return r.trace(name)


def exhaustive_job(a):
    lens, ck, prefix, first, depth = a
    out = []
    n = len(lens)
    for rest in itertools.product(["n", "s", "R", *range(n)], repeat=depth - len(first)):
        acts = list(first) + list(rest)
        if any(x == "s" and y == "s" or (x == "R" and y in ("R", "s")) for x, y in zip(acts, acts[1:])):
            continue
        if acts.index("R") < (acts.index("s") if "s" in acts else 99) if "R" in acts else False:
            continue
        full = ["n"] * prefix + acts + (["n", "n"] if "R" in acts else ["s", "R", "n", "n", "n"])
        t = play(lens, ck, full, f"{lens} ck{ck} {''.join(map(str, full))}", default=len(out) % 2 == 0)
        if t is not None:
            out.append(t)
    return out


def random_job(a):
    seed, lo, hi = a
    out = []
    for j in range(lo, hi):
        rng = random.Random(f"{seed}/p07/{j}")
        n = rng.choice([1, 2, 2, 3, 4])
        lens = [rng.choice([0, 1, 2, 3, 5, 9, 30]) for _ in range(n)]
        ck = 2 * n + rng.choice([0, 0, 1, 3])
        sched = rng.choice([None, Lazy(), Random(random.Random(j))])
        r = Rec(lens, ck, sched, slow=rng.choice([0, 0, 0, 0.01]), default=ck == 2 * n and j % 2 == 0)
        with quiet():
            for _ in range(rng.randint(10, 60)):
                x = rng.random()
                if x < 0.55:
                    r.next()
                elif x < 0.85:
                    for _ in range(rng.randint(1, 4)):
                        r.step(rng.randrange(n))
                elif x < 0.95:
                    r.save()
                elif r.states:
                    r.restore(rng.choice([len(r.states), rng.randint(1, len(r.states))]))
                    if rng.random() < 0.5:
                        # while some workers have not started yet
                        for _ in range(rng.randint(0, 2)):
                            r.next()
                        r.save()
        out.append(r.trace(f"random{j} {lens} ck{ck}"))
    return out


def alive(pids):
    k = 0
    for p in pids:
        try:
            with open(f"/proc/{p}/stat") as f:
                k += f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
        except OSError:
            pass
    return k


def real_job(a):
    """Real worker processes. The consumer and the workers run at different speeds."""
    seed, j = a
    rng = random.Random(f"{seed}/p07r/{j}")
    n = rng.choice([1, 2, 3])
    lens = [rng.randint(1, 8) for _ in range(n)]
    ev = []
    add = lambda e, **kw: ev.append({"e": e, "s": 0, "x": 0, "k": 0, "c": [], "o": [], "p": [], **kw})
    slow = rng.choice([0, 0.01, 0.05])
    cons = rng.choice([0, 0.01])
    res = []  # what is delivered between saves
    toks = []

    def mk():
        wc = wconf(n)
        ds = SlowLeaf("L", items(lens), worker_config=wc)
        ds.slow, ds.every = slow, slow / 4
        return get_savable_loader(ds, checkpoint_every_sec=rng.choice([-1, 0.0, 60]), checkpoint_every_min_n_samples=rng.choice([None, 2 * n]))

    def run(loader, k, it):
        got = []
        for _ in range(k):
            if it[0] is None:
                it[0] = iter(loader)
            try:
                v = next(it[0]).val[0]
                got.append({"w": v // 1000, "v": [v]})
            except StopIteration:
                it[0] = None
                got.append({"w": -1, "v": []})
            if cons:
                time.sleep(cons)
        return got

    kids = lambda: {p.pid for p in multiprocessing.active_children()}
    before = kids()

    def end():
        """The worker processes of the last loader are gone."""
        kill_children(before)

    with quiet():
        # the emulated workers give the reference
        r = Rec(lens, 2 * n, Lazy())
        for _ in range(30):
            r.next()
        ref = [{"w": e["x"], "v": [e["x"] * 1000 + e["k"]]} if e["e"] == "d" else {"w": -1, "v": []} for e in r.ev if e["e"] in ("d", "E")]
        r.trace("")
        sev = []
        loader, it = mk(), [None]
        for slot in range(1, 4):
            sev += [{"e": "d", "k": 0, **t} for t in run(loader, rng.randint(0, 5), it)]
            time.sleep(rng.choice([0, 0, 0.05]))
            st = pickle.loads(pickle.dumps(loader.save_state_rank()))
            sev.append({"e": "s", "k": slot, "w": 0, "v": []})
            sev += [{"e": "d", "k": 0, **t} for t in run(loader, rng.randint(0, 2), it)]
            end()
            loader, it = mk(), [None]
            loader.restore_state_rank(st)
            sev.append({"e": "R", "k": slot, "w": 0, "v": []})
        sev += [{"e": "d", "k": 0, **t} for t in run(loader, 4, it)]
        pids = kids() - before
        if j < 2:
            # without help
            it[0] = None
            loader = None
            vlib._real_collect()
            t0 = time.time()
            while alive(pids) and time.time() - t0 < 15:
                time.sleep(0.1)
            add("z", k=alive(pids))
        end()
    name = f"real{j} {lens} slow={slow} consumer={cons}"
    return (
        dict(name=name, what="real", W=n, all=False, fin=True, n=n, ref=ref, ev=sev),
        dict(name=name, n=n, len=lens, ckmin=2 * n, ev=ev),
    )


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    cfg = "SPECIFICATION Spec\nCONSTANTS N = {}\nLens <- {}\nCkMin = {}\nNCk = 2\nMaxDeliver = {}\nMaxSaves = {}\nINVARIANTS NoError NoDeadlock Ahead\n{}CHECK_DEADLOCK FALSE\n"
    c.add_model("LoaderProtocol", check_model("LoaderProtocol", cfg.format(2, "LensV", 4, 9 if T else 7, 2 if T else 1, "")))
    c.add_model("LoaderProtocol/liveness", check_model("LoaderProtocol", cfg.format(2, "LensV", 4, 8 if T else 5, 1, "PROPERTIES Returns\n")))
    if T:
        c.add_model("LoaderProtocol/3", check_model("LoaderProtocol", cfg.format(3, "LensW", 6, 8, 1, "")))
    D = 6 if T else 4
    jobs = []
    for lens in [(2, 2), (1, 3), (3, 0), (4, 1), (5,)] if not T else [(2, 2), (1, 3), (3, 0), (4, 1), (0, 2), (5,), (1, 1, 2)]:
        for prefix in (0, 1, 2, 3, 4):
            for first in itertools.product(["n", "s", *range(len(lens))], repeat=1):
                jobs.append((lens, 2 * len(lens), prefix, first, D))
    traces = [t for p in collect(c, exhaustive_job, jobs, what="schedules") for t in p]
    n = 4000 if T else 480
    traces += [t for p in collect(c, random_job, [(vlib.SEED, k, k + 20) for k in range(0, n, 20)], what="schedules") for t in p]
    for t in traces[:: max(len(traces) // 4, 1)]:
        c.sample(dict(name=t["name"], ev=[(e["e"], e["x"], e["k"]) for e in t["ev"][:20]]))
    c.run_traces("LoaderTrace", traces, chunk=8000)
    real = collect(c, real_job, [(vlib.SEED, j) for j in range(64 if T else 16)], what="processes", timeout=100)
    c.run_traces("Resume", [a for a, _ in real], name="processes")
    c.run_traces("LoaderTrace", [b for _, b in real if b["ev"]], name="shutdown")
    c.extra["schedules"] = len(traces)
    return c.finish()
