"""P08: global states. RankState.tla enumerates how ranks are grouped and where states are saved to and restored from;
real processes connected by torch.distributed carry that out, and larger random worlds, arriving in random order.
RankTrace.tla judges the states and streams of every group."""

import copy
import json
import os
import pickle
import random
import signal
import time
import zlib

import torch
import torch.distributed as dist

import vlib
from vlib import Check, check_model, collect, scratch
from full import canon
from vdata import Leaf
from vloader import Lazy, shutdown, virtualize
from wload import quiet, tmpdir

from megatron.energon import ShuffleBufferDataset, WorkerConfig, get_savable_loader

LIMIT = 60


def state_id(st):
    return 0 if st is None else (zlib.crc32(repr(canon(st)).encode()) & 0x3FFFFFFF) + 1


def ev(e, r=0, v=0, l=()):
    return dict(e=e, r=r, v=v, l=list(l))


class Rank:
    """One process. Global ranks count from 0 here and from 1 in plans and traces."""

    def __init__(self, rank, W, d, out, alone):
        # alone: torch.distributed is not used
        self.rank, self.W, self.d, self.out, self.alone = rank, W, d, out, alone
        self.pgs = {}

    def group(self, groups, mine):
        key = tuple(map(tuple, groups))
        if key not in self.pgs:
            # all ranks create all groups
            pgs = [dist.new_group([r - 1 for r in g]) for g in groups]
            self.pgs[key] = pgs
            for p in pgs:
                # emulated workers have a copy of the dataset, like a forked process
                copy._deepcopy_dispatch[type(p)] = lambda x, memo: x
        return self.pgs[key][groups.index(mine)]

    def loader(self, sc, k, pg, mine):
        wc = WorkerConfig(rank=mine.index(self.rank + 1), world_size=len(mine), num_workers=sc["n"], data_parallel_group=pg)
        n = max(sc["n"], 1)
        base = 10000 * (self.rank + 1)
        items = [[base + 100 * w + j for j in range(90)] for w in range(n)]
        ds = Leaf(f"L{self.rank}", items, worker_config=wc)
        if sc["shuffle"]:
            ds = ShuffleBufferDataset(ds, size=4, worker_config=wc)
        loader = get_savable_loader(ds, worker_config=wc)
        return virtualize(loader, Lazy()) if sc["n"] else loader

    def pull(self, loader, k):
        it = iter(loader)
        return [next(it).val[0] for _ in range(k)]

    def own(self, loader):
        return state_id(loader.save_state_rank())

    def scenario(self, num, sc):
        rng = random.Random(f"{sc['seed']}/{self.rank}")
        nap = lambda: time.sleep(rng.choice([0, 0, 0, 0.001, 0.004]))
        evs = []
        log = lambda *a, **k: evs.append(ev(*a, **k))
        g = next(g for g in sc["groups"] if self.rank + 1 in g["ranks"])
        mine = g["ranks"]
        all_ = [x["ranks"] for x in sc["groups"]]
        # without a group only if it is the world
        pg = self.group(all_, mine) if not self.alone and (len(all_) > 1 or sc["explicit"]) else None
        me = mine.index(self.rank + 1) + 1
        loader = self.loader(sc, 0, pg, mine)
        log("D", 0)
        for k, rd in enumerate(g["rounds"]):
            dst, src = (0, 0) if self.alone else (rd["dst"], rd["src"])
            log("D", mine.index(dst) + 1 if dst else 0)
            pulls = rd["pull"][me - 1]
            if pulls:
                self.pull(loader, pulls)
            log("o", me, self.own(loader))
            nap()
            got = loader.save_state(dst - 1) if dst else loader.save_state()
            log("s", me, l=[] if got is None and not self.alone else [state_id(s) for s in got] if type(got) is list else [state_id(got)] if self.alone else [-7])
            goes_on = None
            if pulls or sc["n"] == 0 or k:
                goes_on = self.pull(loader, 5)
            shutdown(loader) if sc["n"] else None
            # the user carries the state to where it is restored from
            f = os.path.join(self.d, f"{num}_{k}_{'_'.join(map(str, mine))}")
            if got is not None and (dst or mine[0] == self.rank + 1):
                with open(f + ".tmp", "wb") as h:
                    pickle.dump(got, h)
                os.rename(f + ".tmp", f)
            st = None
            if src in (0, self.rank + 1):
                if dst == 0:
                    st = got
                elif dst != self.rank + 1 or rng.random() < 0.5:
                    t = time.time()
                    while not os.path.exists(f):
                        if time.time() - t > LIMIT:
                            raise TimeoutError("state not written")
                        time.sleep(0.001)
                    with open(f, "rb") as h:
                        st = pickle.load(h)
                else:
                    st = got
            loader = self.loader(sc, k + 1, pg, mine)
            if rd["wrong"] and src == 0:
                st_ = st if type(st) is list else [st]
                bad = st_ + [None] if rd["wrong"] > 0 else st_[: rd["wrong"]]
                if rd["wrong"] > 0 and rng.random() < 0.5:
                    bad = st_ + st_[:1]
                try:
                    loader.restore_state(bad)
                    log("a", me)
                except Exception:
                    log("x", me)
                loader = self.loader(sc, k + 1, pg, mine)
            nap()
            if src:
                loader.restore_state(st, src - 1)
            else:
                loader.restore_state(st)
            if sc["n"] or goes_on is not None:
                log("c", me, self.own(loader))
            if goes_on is None:
                goes_on = self.pull(self.loader(sc, k + 1, pg, mine), 5)
            log("f", me, l=goes_on)
            log("p", me, l=self.pull(loader, 5))
        if sc["n"]:
            shutdown(loader)
        return evs

    def run(self, plans):
        torch.set_num_threads(1)
        os.environ["GLOO_SOCKET_IFNAME"] = "lo"
        with open(self.out, "w") as h:
            try:
                if not self.alone:
                    dist.init_process_group("gloo", init_method=f"file://{self.d}/store", rank=self.rank, world_size=self.W)
                for num, sc in enumerate(plans):
                    with quiet():
                        evs = self.scenario(num, sc)
                    h.write(json.dumps([num, evs]) + "\n")
                    h.flush()
            except BaseException as e:
                import traceback

                h.write(json.dumps([-1, "".join(traceback.format_exception(e))[-1500:]]) + "\n")
                h.flush()


def worlds(job):
    """All plans of one world size in one set of processes."""
    W, plans, alone = job
    out = []
    with tmpdir() as d:
        pids = []
        outs = [os.path.join(d, f"out{r}") for r in range(W)]
        try:
            for r in range(W):
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(0)
                        Rank(r, W, d, outs[r], alone).run(plans)
                    finally:
                        os._exit(0)
                pids.append(pid)
            t, left = time.time(), set(pids)
            # nothing new for a long time: stuck
            size = -1
            while left:
                for p in list(left):
                    if os.waitpid(p, os.WNOHANG)[0]:
                        left.discard(p)
                s = sum(os.path.getsize(o) for o in outs if os.path.exists(o))
                if s != size:
                    size, t = s, time.time()
                if time.time() - t > LIMIT:
                    break
                time.sleep(0.01)
            stuck = {pids.index(p) for p in left}
        finally:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
        res, errors = [{} for _ in range(W)], [None] * W
        for r, o in enumerate(outs):
            for line in open(o) if os.path.exists(o) else []:
                num, evs = json.loads(line)
                if num == -1:
                    errors[r] = evs
                else:
                    res[r][num] = evs
    broken = False
    for num, sc in enumerate(plans):
        if broken:
            break
        for g in sc["groups"]:
            parts = []
            for j, r in enumerate(g["ranks"]):
                if num in res[r - 1]:
                    parts.append(split(res[r - 1][num]))
                else:
                    broken = True
                    parts.append([[ev("h" if r - 1 in stuck else "X", j + 1)]])
            evs = []
            # round by round: where to, own states, then all others
            for k in range(max(map(len, parts))):
                rows = [p[k] for p in parts if k < len(p)]
                for kinds in ("Xh", "D", "o", "f", "scpxa"):
                    evs += [e for row in rows for e in row if e["e"] in kinds]
            out.append(dict(name=f"W{W}p{num}g{'_'.join(map(str, g['ranks']))}", W=len(g["ranks"]), evs=evs, what=f"{W}/{len(g['ranks'])}", plan=sc, errors=[e for e in errors if e] if broken else []))
    return out


def split(evs):
    """By rounds."""
    out = []
    for e in evs:
        if e["e"] == "D":
            out.append([])
        out[-1].append(e)
    return out


def plan(rng, groups, seed, rounds=None):
    gs = []
    for ranks, dst, src in groups:
        rds = []
        for k in range(rounds or rng.choice([1, 1, 2, 3])):
            rds.append(dict(
                dst=dst if k == 0 and dst is not None else rng.choice([0, *ranks]), src=src if k == 0 and src is not None else rng.choice([0, *ranks]),
                pull=[rng.choice([0, 0, 1, 2, 3, 5, 9]) for _ in ranks], wrong=rng.choice([0, 0, 1, 1, -1]) if len(ranks) > 1 else rng.choice([0, 0, 1]),
            ))  # fmt: skip
        gs.append(dict(ranks=ranks, rounds=rds))
    return dict(groups=gs, n=rng.choice([0, 0, 1, 2, 3]), shuffle=rng.random() < 0.5, explicit=rng.random() < 0.5, seed=seed)


def check(prop):
    c = Check(prop)
    T = vlib.THOROUGH
    out = scratch("ranks.json")
    for W, rounds, emit in [(3, 1, True), (2, 2, False)] + ([(3, 2, False), (4, 1, False)] if T else []):
        cfg = f"SPECIFICATION Spec\nCONSTANTS MaxRanks = {W}\nRounds = {rounds}\nEmit = {'TRUE' if emit else 'FALSE'}\nINVARIANTS Own OnlyDst Whole NothingLeft\n"
        c.add_model("RankState", check_model("RankState", cfg, env={"OUT": out}))
    rng, by = c.rng, {}
    for k, line in enumerate(open(out)):
        w = json.loads(line)
        by.setdefault(w["W"], []).append(plan(rng, [(sorted(g["ranks"]), g["dst"], g["src"]) for g in w["groups"]], k))
    N = 4000 if T else 240
    for k in range(N):
        W = rng.choice([2, 3, 4, 4, 5, 6])
        order = rng.sample(range(1, W + 1), W)
        groups, j = [], 0
        while j < W:
            m = rng.randint(1, W - j)
            groups.append((sorted(order[j : j + m]), None, None))
            j += m
        by.setdefault(W, []).append(plan(rng, groups, 1000 + k))
    jobs = []
    for W, ps in sorted(by.items(), reverse=True):
        rng.shuffle(ps)
        jobs += [(W, ps[j : j + 40], False) for j in range(0, len(ps), 40)]
    jobs.append((1, [plan(rng, [([1], None, 0)], 9000 + k) for k in range(400 if T else 40)], True))
    traces = [t for x in collect(c, worlds, jobs, timeout=800, what="ranks") for t in x]
    for t in traces[:: max(len(traces) // 4, 1)]:
        c.sample(dict(group=t["name"], events=t["evs"][:8]))
    c.run_traces("RankTrace", traces, name="ranks", chunk=500)
    c.extra["groups"] = {w: sum(t["what"] == w for t in traces) for w in sorted({t["what"] for t in traces})}
    return c.finish()
