"""Synthetic savable leaf datasets and tiny webdatasets on disk."""

import io
import json
import os
import tarfile
from dataclasses import dataclass
from typing import Any, List

from vlib import import_energon

energon = import_energon()
from megatron.energon import Sample, WorkerConfig  # noqa: E402
from megatron.energon.flavors.base_dataset import MergedState, SavableDataset, State  # noqa: E402


@dataclass
class VSample(Sample):
    val: Any = None


@dataclass
class VBatch(Sample):
    val: Any = None


@dataclass
class LeafState(State):
    pos: int


@dataclass
class LeafMerged(MergedState):
    pos: List[int]


class Leaf(SavableDataset):
    """items[w] is what local worker w gets in one pass. A pass which was interrupted by
    save/restore continues where it was."""

    #: Called at every step, stops pipelines which run forever without yielding
    tick = staticmethod(lambda: None)

    def __init__(self, name, items, *, worker_config):
        super().__init__(worker_config=worker_config)
        self.name = name
        self.items = items
        self.n = max(worker_config.num_workers, 1)
        self.pos = [0] * self.n

    def __len__(self):
        return sum(len(x) for x in self.items)

    def _mk(self, w, i):
        return VSample(
            __key__=f"{self.name}/{self.items[w][i]}",
            __restore_key__=("Leaf", self.name, w, i),
            __subflavor__=None,
            __subflavors__=None,
            val=(self.items[w][i],),
        )

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        self.tick()
        while self.pos[w] < len(self.items[w]):
            i = self.pos[w]
            self.pos[w] += 1
            self.tick()
            yield self._mk(w, i)
        self.pos[w] = 0

    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0

    def save_state(self):
        return LeafState(pos=self.pos[self.worker_config.rank_worker_id()])

    def merge_states(self, states):
        return LeafMerged(pos=[0 if s is None else s.pos for s in states])

    def restore_state(self, state):
        self.pos = [0] * self.n if state is None else list(state.pos)

    def can_restore_sample(self):
        return True

    def restore_sample(self, index):
        t, name, w, i = index
        assert t == "Leaf" and name == self.name
        return self._mk(w, i)

    def config(self):
        return {"type": "Leaf", "name": self.name}


def make_webdataset(path, shards, *, splits=None, sample_type="TextSample", extra_yaml="", parts=None):
    """shards: list of lists of texts. One tar per inner list; returns the path.
    Index and meta data are written by the code under test's preparator."""
    os.makedirs(path, exist_ok=True)
    names = []
    for si, shard in enumerate(shards):
        name = f"shard_{si:03d}.tar"
        with tarfile.open(os.path.join(path, name), "w") as tf:
            for key, fields in shard:
                for ext, data in fields.items():
                    ti = tarfile.TarInfo(f"{key}.{ext}")
                    ti.size = len(data)
                    tf.addfile(ti, io.BytesIO(data))
        names.append(name)
    return names
