"""P20: seeded functions. All short programs of calls, generators, failures and draws (enumerated by
TLC from RngFrames.tla) and long random ones are run with real decorated functions; functions of
random pipelines draw and note their indices. RngTrace.tla and IndexTrace.tla judge what they saw."""

import inspect
import pickle
import random
import re
import zlib

import numpy as np
import torch

import vlib
from vlib import Check, check_model, collect, run_tlc
from engine import Gen, Hang, Run
from full import Full, FullRun
from vloader import Eager, Lazy, Random
from vpipe import Log
from wload import quiet, tmpdir

from megatron.energon import DefaultTaskEncoder, SkipSample, WorkerConfig, stateless


def draw():
    """One step of every generator, also of the distributions which keep half of a pair."""
    a = (random.getrandbits(31), int(np.random.randint(2**31)), int(torch.randint(2**31, ())))
    b = (random.gauss(0, 1), float(np.random.standard_normal()), float(torch.randn(())))
    return [zlib.crc32(repr(a).encode()) >> 1, zlib.crc32(repr(b).encode()) >> 1]


def seed_all(k):
    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def get_state():
    return random.getstate(), np.random.get_state(), torch.get_rng_state().clone()


def set_state(s):
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])


def state_id():
    a, b, c = get_state()
    return [zlib.crc32(pickle.dumps(x)) >> 1 for x in (a, (b[0], b[1].tolist()) + tuple(b[2:]))] + [zlib.crc32(bytes(c.tolist())) >> 1]


# --------------------------------------------------------------------------------------------
# Programs
# --------------------------------------------------------------------------------------------


class Stop(Exception):
    pass


class Machine:
    """Runs programs over the actions of RngFrames.tla with real functions."""

    KINDS = (ValueError, SkipSample, KeyError, KeyboardInterrupt, StopAsyncIteration, GeneratorExit)

    def __init__(self, evs, refs, rng):
        self.evs = evs
        self.refs = refs
        self.rng = rng
        self.frames = 0

    def run(self, program, conf, idxs):
        self.prog = program
        self.pos = 0
        self.idxs = idxs
        self.gens = {"G": None, "H": None}
        self.used = 0
        n, rank, world, off, gid, batch = conf
        self.wc = WorkerConfig(rank=rank, world_size=world, num_workers=n, seed_offset=off)
        self.gid = rank if n == 0 else gid
        self.off = off
        self.refs.append([])
        self.evs.append(dict(e="p", o=len(self.refs), k="", n=0, v=[]))
        seed_all(self.rng.randrange(10**9))
        for _ in range(self.rng.randrange(3)):
            draw()
        start = get_state()
        outer = []
        self.wc.worker_activate(batch, override_global_rank=0 if n == 0 else gid)
        try:
            self.body(0, [None, 0], outer)
            for g in list(self.gens):
                self.drop(g)
        finally:
            self.wc.worker_deactivate()
        outer.append("D")
        self.u(draw())
        self.u(state_id())
        # the same without functions
        set_state(start)
        for a in outer:
            self.refs[-1].append(draw())
        self.refs[-1].append(state_id())

    def u(self, v):
        self.evs.append(dict(e="u", o=0, k="", n=0, v=v))

    def next_idx(self):
        self.used += 1
        return self.idxs[(self.used - 1) % len(self.idxs)]

    def take(self):
        if self.pos >= len(self.prog):
            return None
        self.pos += 1
        return self.prog[self.pos - 1]

    def body(self, o, me, outer=None):
        """The common actions; returns the action which ends or suspends the frame."""
        while True:
            a = self.take()
            if a == "D":
                v = draw()
                if o == 0:
                    outer.append("D")
                    self.u(v)
                else:
                    me[1] += 1
                    self.evs.append(dict(e="d", o=o, k=me[0], n=me[1], v=v))
            elif a == "Z":
                seed_all(self.pos)
                me[0] = ""
            elif a == "C":
                self.call(lambda: Enc.plain(self))
            elif a in ("G", "H"):
                self.step(a)
            elif a in ("g", "h"):
                self.drop(a.upper())
            else:
                return a

    @property
    def current_sample_index(self):
        return DefaultTaskEncoder.current_sample_index.fget(self)

    def call(self, fn, idx=None):
        self.wc.worker_push_sample_index(self.next_idx() if idx is None else idx)
        try:
            return fn()
        except Machine.KINDS:
            return None
        finally:
            self.wc.worker_pop_sample_index()

    def step(self, g):
        def fn():
            if self.gens[g] is None:
                self.gens[g] = Enc.gen(self)
                idx = None
            try:
                next(self.gens[g])
            except StopIteration:
                self.gens[g] = None
            except BaseException:
                self.gens[g] = None
                raise

        # the index at later steps is not the one of the first step
        self.call(fn, None if self.gens[g] is None else 90 + self.pos)

    def drop(self, g):
        if self.gens[g] is not None:
            self.gens[g].close()
            self.gens[g] = None

    def fresh(self):
        self.frames += 1
        idx = WorkerConfig._sample_index_stack[-1]
        w = 0 if self.wc.num_workers == 0 else self.gid % self.wc.num_workers
        return self.frames, [f"{self.off},{self.gid},{idx * max(self.wc.num_workers, 1) + w}", 0]

    def fail(self):
        raise self.KINDS[self.rng.randrange(len(self.KINDS))]("injected")


class Enc:
    @stateless(restore_seeds=True)
    def plain(self):
        o, me = self.fresh()
        if self.body(o, me) == "X":
            self.fail()

    @stateless(restore_seeds=True)
    def gen(self):
        o, me = self.fresh()
        while True:
            a = self.body(o, me)
            if a == "Y":
                yield o
            elif a == "X":
                raise ValueError("injected")
            else:
                return


CONFS = [
    # workers per rank, rank, world, seed offset, global worker, batch index
    (n, r, R, off, r * n + w, b)
    for n in (0, 1, 3)
    for r, R in ((0, 1), (1, 2))
    for w in range(max(n, 1))
    for off in (0, 7)
    for b in (0, 4)
]


def programs(a):
    what, seed, part = a
    rng = random.Random(f"{seed}/p20/{what}/{part[0] if part else 0}")
    out = []
    for lo in range(0, len(part), 50):
        evs, refs = [], []
        m = Machine(evs, refs, rng)
        confs = rng.sample(CONFS, 4)
        for p in part[lo : lo + 50]:
            m.run(p, rng.choice(confs), [rng.randrange(4) for _ in range(6)])
        out.append(dict(name=f"{what}/{part[lo]}", ref=refs, evs=evs))
    return out


def random_programs(a):
    seed, lo, hi = a
    rng = random.Random(f"{seed}/p20r/{lo}")
    out = []
    for _ in range(lo, hi):
        # programs without effect of the unsuitable actions
        depth, kinds, st, s = 0, [], {}, ""
        for _ in range(rng.choice([15, 40, 80])):
            acts = ["D"] * 4
            if depth < 4:
                acts += ["C"] * 2 + [g for g in "GH" if st.get(g) != "run"] * 2
            acts += [g.lower() for g in "GH" if st.get(g) == "susp"]
            if kinds:
                acts += ["R", "X", "Z"] + (["Y"] * 4 if kinds[-1] != "C" else [])
            x = rng.choice(acts)
            s += x
            if x in "CGH":
                kinds.append(x)
                depth += 1
                st[x] = "run"
            elif x in "gh":
                st[x.upper()] = ""
            elif x in "RXY":
                k = kinds.pop()
                depth -= 1
                st[k] = "susp" if x == "Y" else ""
        out.append(s)
    return programs(("random", f"{seed}/{lo}", out))


# --------------------------------------------------------------------------------------------
# Pipelines
# --------------------------------------------------------------------------------------------


class Self:
    """What a decorated method sees of its encoder."""

    current_sample_index = DefaultTaskEncoder.current_sample_index
    current_batch_index = DefaultTaskEncoder.current_batch_index


class Watch:
    """Lets the functions of a pipeline note their indices and draw numbers."""

    def __init__(self, log, off, seeded=True):
        self.log = log
        self.off = off
        self.me = Self()
        self.calls = 0
        self.seeded = seeded
        self.evs = {}
        self.start = {}
        self.counts = {}

    def note(self, node, f, e):
        wc = WorkerConfig.active_worker_config
        w = wc.rank_worker_id()
        if not self.log.mute:
            self.log.ev.setdefault(w, []).append(dict(n=node["id"], f=f, e=e, v=[self.me.current_sample_index, self.me.current_batch_index]))

    def draws(self, c):
        wc = WorkerConfig.active_worker_config
        w = wc.rank_worker_id()
        c[0] = c[0] or f"{self.off},{wc.rank if wc.num_workers == 0 else wc.global_worker_id()},{self.me.current_sample_index}"
        for _ in range(2):
            c[1] += 1
            self.evs.setdefault(w, []).append(dict(e="d", o=0, k=c[0], n=c[1], v=draw()))

    def between(self, w):
        """Numbers drawn outside of all functions."""
        if w not in self.start:
            self.start[w] = []
        if not self.start[w] or self.start[w][-1] is None:
            if self.start[w]:
                self.start[w].pop()
            self.start[w].append((get_state(), []))
            self.evs.setdefault(w, []).append(dict(e="p", o=len(self.start[w]), k="", n=0, v=[]))
        v = draw()
        self.start[w][-1][1].append(v)
        self.evs[w].append(dict(e="u", o=0, k="", n=0, v=v))

    def cut(self):
        """The main process draws a number when a new iterator starts."""
        for w in self.start:
            if self.start[w][-1] is not None:
                self.start[w].append(None)

    def refs(self, w):
        old = get_state()
        out = []
        for x in self.start.get(w, []):
            if x is not None:
                set_state(x[0])
                out.append([draw() for _ in x[1]])
        set_state(old)
        return out

    def __call__(self, fn, node, f):
        watch = self
        if node["t"] == "itermap":
            # reads its input itself, which must not be seeded from here

            def it_fn(it):
                watch.note(node, f, "c")
                for x in fn(it):
                    yield x
                    watch.note(node, f, "c")

            return it_fn
        dec = stateless(restore_seeds=True) if self.seeded else stateless
        if inspect.isgeneratorfunction(fn):

            @dec
            def g(self, *a):
                c = ["", 0]
                watch.note(node, f, "c")
                watch.draws(c)
                for x in fn(*a):
                    yield x
                    watch.note(node, f, "y")
                    watch.draws(c)

            return _bound(g, watch.me)

        @dec
        def p(self, *a):
            c = ["", 0]
            watch.note(node, f, "c")
            watch.draws(c)
            return fn(*a)

        return _bound(p, watch.me)


def _bound(f, me):
    return f.__get__(me)


def pipelines(a):
    seed, lo, hi = a
    out, idx = [], []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p20p/{k}")
        n = rng.choice([0, 0, 1, 2, 3])
        fam = rng.choice([("map",), ("batch", "map"), ("pack",), ("group", "map"), ("filter", "batch"), ("itermap", "map"), ("mix",), ("map", "batch", "pack", "group", "filter", "epochize", "limit")])
        g = Gen(rng, fam, n, depth=rng.choice([2, 3]), savable=rng.random() < 0.5)
        nodes = g.build()
        log = Log()
        log.limit = 600
        off = rng.choice([0, 3])
        w8 = Watch(log, off)
        log.watch = w8
        world = rng.choice([1, 2])
        rank = rng.randrange(world)
        log.between = w8.between
        seed_all(rng.randrange(10**6))
        s = rng.randrange(10**6)
        try:
            with quiet():
                r = Run(nodes, n, log=log, rank=rank, world=world, seed_offset=off, sched=rng.choice([Lazy, Eager, lambda: Random(random.Random(s))])())
                for _ in range(rng.choice([8, 16, 24])):
                    if r.dead:
                        break
                    if n == 0 and r.it is None:
                        w8.cut()
                    r.pull(1)
                r.close()
        except Hang:
            pass
        except RuntimeError as e:
            if "Pre packer did not yield" not in str(e):
                raise
        for w in range(max(n, 1)):
            ev = [x for x in log.ev.get(w, []) if x["e"] in ("c", "y", "o", "r")]
            ev = [dict(n=x["n"], f=x.get("f", 0), e=x["e"], v=x["v"] if x["e"] in ("c", "y") else []) for x in ev]
            if ev:
                idx.append(dict(name=f"p{k}/w{w}", W=max(n, 1), w=w, root=len(nodes), evs=ev, nodes=[x["t"] for x in nodes]))
            if w8.evs.get(w):
                out.append(dict(name=f"p{k}/w{w}", ref=w8.refs(w), evs=w8.evs[w], nodes=[x["t"] for x in nodes]))
    return out, idx


def complete(a):
    """Complete configurations in the main process: no trace in its generators between samples."""
    seed, lo, hi = a
    out = []
    for k in range(lo, hi):
        rng = random.Random(f"{seed}/p20f/{k}")
        with tmpdir() as d, quiet():
            cfg = Full(rng, d, n=0, train=True)
            cfg.o["seeds"] = True
            cfg.kw["virtual_epoch_length"] = 0
            r = FullRun(cfg)
            r.pull(1)
            seed_all(rng.randrange(10**9))
            start = get_state()
            evs = [dict(e="p", o=1, k="", n=0, v=[])]
            c = 0
            for _ in range(8):
                r.pull(1)
                if rng.random() < 0.4 and r.samples:
                    r.restore_sample(rng.choice(r.samples))
                if rng.random() < 0.3:
                    r.save()
                evs.append(dict(e="u", o=0, k="", n=0, v=draw()))
                c += 1
            evs.append(dict(e="u", o=0, k="", n=0, v=state_id()))
            r.close()
            set_state(start)
            ref = [draw() for _ in range(c)] + [state_id()]
            out.append(dict(name=f"full{k}", ref=[ref], evs=evs, cfg=cfg.describe()))
    return out


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    L = 7 if T else 6
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxLen = {}\nMaxDepth = {}\nEmit = {}\nINVARIANTS OwnNumbers NoTrace\nCHECK_DEADLOCK FALSE\n"
    r = run_tlc("RngFrames", cfg.format(L, 3, "TRUE"))
    if not r.ok:
        raise vlib.MachineryError(r.out[-2000:])
    c.add_model(f"RngFrames, programs of {L} actions", r)
    progs = sorted(set(re.findall(r'"PROGRAM (\w+)"', r.out)))
    if not progs:
        raise vlib.MachineryError("no programs: " + r.out[-2000:])
    c.rng.shuffle(progs)
    c.extra["enumerated_programs"] = len(progs)
    P = 64
    traces = [t for x in collect(c, programs, [("all", vlib.SEED, progs[k::P]) for k in range(P)], what="programs") for t in x]
    N = 20000 if T else 1600
    traces += [t for x in collect(c, random_programs, [(vlib.SEED, k, k + 50) for k in range(0, N, 50)], what="random programs") for t in x]
    N = 8000 if T else 800
    pl = collect(c, pipelines, [(vlib.SEED, k, k + 20) for k in range(0, N, 20)], what="pipelines")
    rt = [t for x, _ in pl for t in x]
    it = [t for _, x in pl for t in x]
    N = 800 if T else 80
    ft = [t for x in collect(c, complete, [(vlib.SEED, k, k + 5) for k in range(0, N, 5)], what="configurations") for t in x]
    if traces:
        c.sample(dict(programs=progs[:6], events=traces[0]["evs"][:10]))
    for t in it[:: max(len(it) // 4, 1)]:
        c.sample(dict(nodes=t["nodes"], events=[(e["e"], e["n"], e["v"]) for e in t["evs"][:10]]))
    c.run_traces("RngTrace", traces, name="programs", chunk=400)
    c.run_traces("RngTrace", rt + ft, name="pipelines", chunk=1500)
    c.run_traces("IndexTrace", it, name="indices", chunk=3000)
    return c.finish()
