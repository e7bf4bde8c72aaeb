"""Builds real dataset pipelines of the code under test from an abstract description.

The same description (a flat list of nodes, children first) is part of the recorded trace and is
interpreted by the specification (Wrappers.tla). All user functions are given by tables, such that
the specification knows them. Every edge of the pipeline carries a probe, which records what
crosses the edge; the probes are ordinary user defined wrappers.

Values are flat tuples of ints: `(id,)` for a leaf sample; a map appends -1 (or -10-j for the j-th
sample of a generator), a batch/pack is -2, members..., -3 (then -10-j for generators).

Nodes (id = position in the list, from 1; `c`: list of child ids):
  leaf     items[w]
  repeat   n (0: infinite)
  concat / blend w / mix w, n + batch tables
  shuffle  n
  epochize n / limit n
  filter   drop
  map      gen (0: plain function), skip, fail, fatal, skipmid, failmid (at generator position 1)
  itermap  drop, rep, fail, failmid (of rep)
  batch    n, dl, gen, skip, fail, skipmid
  group    n (0: size by table `sizes`), mod, dl, skip, fail (batcher), skipg, failg (key function)
  pack     n (buffer), k (pack size), rev, lose, skipp, failp (pre packer), skip, fail, gen, skipmid
"""

import random as _random

from vdata import Leaf, VSample, energon  # noqa: F401

from megatron.energon import (
    BatchDataset,
    BlendDataset,
    ConcatDataset,
    EpochizeDataset,
    FilterDataset,
    GroupBatchDataset,
    IterMapDataset,
    LimitDataset,
    MapDataset,
    MixBatchDataset,
    RepeatDataset,
    ShuffleBufferDataset,
    SkipSample,
    WorkerConfig,
)
from megatron.energon.wrappers import PackingDataset
from megatron.energon.wrappers.base import BaseSingleWrapperDataset

import dataclasses


from megatron.energon.errors import FatalSampleError


class Boom(Exception):
    pass


class Hang(BaseException):
    """Raised by the log if a pipeline produces far more events than it should."""


TABLES = (
    "drop", "skip", "fail", "fatal", "skipmid", "failmid", "rep", "skipg", "failg", "lose",
    "skipp", "failp",
)  # fmt: skip


def norm(nodes):
    """The description with all fields, as the specification reads it."""
    res = []
    for n in nodes:
        d = dict(
            t="", c=[], items=[], n=0, k=1, w=[], dl=False, rev=False, gen=0, mod=1, sizes=[],
            defh=False, name="", reset=False,
        )
        d.update({t: [] for t in TABLES})
        d.update(n)
        d["w"] = [1 if x > 0 else 0 for x in d["w"]]
        res.append(d)
    return res


def key(v):
    return next(x for x in v if x >= 0)


def cur_idx():
    return WorkerConfig.active_worker_config.active_worker_sample_index


def trail(s):
    return tuple(getattr(s, "trail", ()))


def mk(src, val, tr):
    s = VSample(
        __key__=src.__key__,
        __restore_key__=src.__restore_key__,
        __subflavor__=None,
        __subflavors__=None,
        val=tuple(val),
    )
    s.trail = tuple(tr)
    return s


class Log:
    """Event log shared by all copies of a pipeline within this process."""

    def __init__(self):
        self.ev = {}
        self.mute = 0
        self.on = True
        self.limit = None
        self.count = 0
        # Hook around the user functions: called as watch(fn, node, number of the function)
        self.watch = None
        # Called at every probe
        self.between = None

    def __deepcopy__(self, memo):
        return self

    def tick(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            raise Hang()

    def add(self, w, **e):
        if e.get("e") in ("i", "r"):
            self.tick()
        if self.on and not self.mute:
            self.ev.setdefault(w, []).append({"v": [], **e})


class Probe(BaseSingleWrapperDataset):
    """Transparent wrapper recording what crosses an edge of the pipeline."""

    def __init__(self, dataset, nid, log, *, worker_config):
        super().__init__(dataset, worker_config=worker_config)
        self.nid = nid
        self.log = log

    def __len__(self):
        return len(self.dataset)

    def _w(self):
        return self.worker_config.rank_worker_id()

    def __iter__(self):
        w = self._w()
        self.log.add(w, n=self.nid, e="i")
        try:
            for s in self.dataset:
                self.log.add(w, n=self.nid, e="o", v=list(s.val))
                if self.log.between is not None:
                    self.log.between(w)
                yield s
        except FatalSampleError as e:
            seen, c = False, e
            while c is not None:
                seen = seen or hasattr(c, "_seen")
                c = c.__cause__ or c.__context__
            e._seen = True
            if not seen:
                self.log.add(w, n=self.nid, e="x")
            raise
        self.log.add(w, n=self.nid, e="e")

    def restore_state(self, state):
        if state is None:
            self.log.add(self._w(), n=self.nid, e="r")
        super().restore_state(state)

    def restore_sample(self, index):
        self.log.mute += 1
        try:
            return self.dataset.restore_sample(index)
        finally:
            self.log.mute -= 1

    def can_restore_sample(self):
        return self.dataset.can_restore_sample()

    def assert_can_restore(self):
        self.dataset.assert_can_restore()

    def config(self):
        return self.dataset.config()


class Handler:
    def __init__(self, nid, log):
        self.nid = nid
        self.log = log

    def __call__(self, exc, sample):
        if not isinstance(exc, Boom):
            raise exc
        ss = sample if isinstance(sample, (list, tuple)) else [sample]
        wc = WorkerConfig.active_worker_config
        self.log.add(wc.rank_worker_id(), n=self.nid, e="h", v=[x for s in ss for x in s.val])


def build(nodes, wc, log=None, probes=True):
    """Returns the dataset of the last node."""
    log = log or Log()
    built = {}
    for i, (node, raw) in enumerate(zip(norm(nodes), nodes), 1):
        node["w"] = raw.get("w", [])
        d = build_node(node, i, [built[c] for c in node.get("c", [])], wc, log)
        built[i] = Probe(d, i, log, worker_config=wc) if probes else d
    return built[len(nodes)]


def build_node(node, nid, cs, wc, log):
    t = node["t"]
    kw = dict(worker_config=wc)
    hkw = {} if node.get("defh") else dict(error_handler=Handler(nid, log))
    S = {k: frozenset(node.get(k, [])) for k in TABLES}

    def U(fn, f=1):
        return fn if log.watch is None else log.watch(fn, dict(node, id=nid), f)

    if t == "leaf":
        leaf = Leaf(node["name"], node["items"], worker_config=wc)
        leaf.tick = log.tick
        return leaf
    if t == "concat":
        return ConcatDataset(*cs, **kw)
    if t == "blend":
        return BlendDataset(*zip(cs, node["w"]), **kw)
    if t == "mix":
        return MixBatchDataset(
            *zip(cs, node["w"]), batch_size=node["n"], batch_mix_fn=U(_batcher(node, S)), **kw
        )
    c = cs[0]
    if t == "repeat":
        return RepeatDataset(c, repeats=node["n"] or None, **kw)
    if t == "shuffle":
        return ShuffleBufferDataset(c, size=node["n"], **kw)
    if t == "epochize":
        return EpochizeDataset(c, length=node["n"], **kw)
    if t == "limit":
        return LimitDataset(c, length=node["n"], reset_after_epoch=node.get("reset", False), **kw)
    if t == "filter":
        return FilterDataset(c, filter_fn=U(lambda s: key(s.val) not in S["drop"]), **kw)
    if t == "map":

        def pre(s):
            v = key(s.val)
            if v in S["skip"]:
                raise SkipSample()
            if v in S["fail"]:
                raise Boom(str(v))
            if v in S["fatal"]:
                raise NameError("fatal")

        if not node["gen"]:

            def fn(s):
                pre(s)
                return mk(s, s.val + (-1,), trail(s) + (cur_idx(), _random.randrange(10**6) if node.get("rnd") else 0))

        else:

            def fn(s):
                pre(s)
                for j in range(node["gen"]):
                    if j == 1:
                        if key(s.val) in S["skipmid"]:
                            raise SkipSample()
                        if key(s.val) in S["failmid"]:
                            raise Boom("mid")
                    yield mk(s, s.val + (-10 - j,), trail(s) + (cur_idx(), j))

        return MapDataset(c, map_fn=U(fn), stateless_map_fn=True, **hkw, **kw)
    if t == "itermap":

        def itfn(it):
            for s in it:
                v = key(s.val)
                if v in S["drop"]:
                    continue
                if v in S["fail"]:
                    raise Boom(str(v))
                yield mk(s, s.val + (-1,), trail(s) + (cur_idx(),))
                if v in S["rep"]:
                    if v in S["failmid"]:
                        raise Boom("mid")
                    yield mk(s, s.val + (-1,), trail(s) + (cur_idx(),))

        return IterMapDataset(c, iter_map_fn=U(itfn), stateless_iter_fn=True, **hkw, **kw)
    if t == "batch":
        return BatchDataset(
            c, batch_size=node["n"], batcher=U(_batcher(node, S)), drop_last=node["dl"],
            batcher_stateless=True, **hkw, **kw,
        )  # fmt: skip
    if t == "group":

        def gkey(s):
            v = key(s.val)
            if v in S["skipg"]:
                raise SkipSample()
            if v in S["failg"]:
                raise Boom("g")
            k = v % node["mod"]
            # keys of any type
            return ("zero", "one", ("two", 2))[k], (None if node["n"] else node["sizes"][k])

        return GroupBatchDataset(
            c, fixed_batch_size=node["n"] or None, sample_group_key=U(gkey),
            batcher=U(_batcher(node, S), 2), drop_last=node["dl"], batcher_stateless=True, **hkw, **kw,
        )  # fmt: skip
    if t == "pack":
        k = node["k"]

        def pre_pack(samples):
            f = key(samples[0].val)
            if f in S["skipp"]:
                raise SkipSample()
            if f in S["failp"]:
                raise Boom("p")
            ss = [s for s in samples if key(s.val) not in S["lose"]]
            if node["rev"]:
                ss = ss[::-1]
            return [ss[i : i + k] for i in range(0, len(ss), k)]

        return PackingDataset(
            c, buffer_size=node["n"], pre_packer=U(pre_pack), final_packer=U(_batcher(node, S), 2),
            final_packer_stateless=True, **hkw, **kw,
        )  # fmt: skip
    raise AssertionError(t)


def _batcher(node, S):
    gen = node.get("gen", 0)

    def pre(ss):
        ks = {key(s.val) for s in ss}
        if ks & S["skip"]:
            raise SkipSample()
        if ks & S["fail"]:
            raise Boom("batch")
        if ks & S["fatal"]:
            raise NameError("fatal")

    def join(ss):
        return (-2,) + tuple(x for s in ss for x in s.val) + (-3,)

    def tr(ss):
        return tuple(x for s in ss for x in trail(s))

    if not gen:

        def fn(ss):
            pre(ss)
            return mk(ss[0], join(ss), tr(ss) + (cur_idx(),))

    else:

        def fn(ss):
            pre(ss)
            for j in range(gen):
                if j == 1:
                    ks = {key(s.val) for s in ss}
                    if ks & S["skipmid"]:
                        raise SkipSample()
                    if ks & S["failmid"]:
                        raise Boom("mid")
                yield mk(ss[0], join(ss) + (-10 - j,), tr(ss) + (cur_idx(), j))

    return fn


def shape(s):
    """What is observable of a delivered sample."""
    return (tuple(s.val), trail(s))
