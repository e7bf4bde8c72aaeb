# Copied beside the demonstrations as lib.py
LIB = '''
import gc, sys, os, random, traceback
gc.collect = lambda *a, **k: 0
gc.get_objects = lambda *a, **k: []
import logging
logging.disable(logging.CRITICAL)
traceback.print_exc = lambda *a, **k: None
from dataclasses import dataclass
from typing import Any, List
import torch
torch.set_num_threads(1)
from megatron.energon import *
from megatron.energon import Sample, WorkerConfig, get_savable_loader, get_loader
from megatron.energon.flavors.base_dataset import MergedState, SavableDataset, State
assert sys.modules["megatron.energon"].__file__.startswith(os.getcwd()), "wrong tree"

@dataclass
class VSample(Sample):
    val: Any = None

@dataclass
class LeafState(State):
    pos: int

@dataclass
class LeafMerged(MergedState):
    pos: List[int]

class Leaf(SavableDataset):
    """items: the samples in order, dealt to the local workers (i, i+n, ...)."""
    def __init__(self, items, *, worker_config, name="L"):
        super().__init__(worker_config=worker_config)
        self.name = name
        self.n = max(worker_config.num_workers, 1)
        self.items = [list(items)[w::self.n] for w in range(self.n)]
        self.pos = [0] * self.n
    def __len__(self):
        return sum(map(len, self.items))
    def mk(self, w, i):
        return VSample(__key__=f"{self.name}/{self.items[w][i]}", __restore_key__=("Leaf", self.name, w, i), __subflavor__=None, __subflavors__=None, val=self.items[w][i])
    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        while self.pos[w] < len(self.items[w]):
            self.pos[w] += 1
            yield self.mk(w, self.pos[w] - 1)
        self.pos[w] = 0
    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0
    def save_state(self):
        return LeafState(pos=self.pos[self.worker_config.rank_worker_id()])
    def merge_states(self, states):
        return LeafMerged(pos=[0 if s is None else s.pos for s in states])
    def restore_state(self, state):
        self.pos = [0] * self.n if state is None else list(state.pos)
    def can_restore_sample(self):
        return True
    def assert_can_restore(self):
        pass
    def restore_sample(self, index):
        return self.mk(index[2], index[3])
    def config(self):
        return {"type": "Leaf"}

def wc(n=0, rank=0, world=1, seed=0):
    return WorkerConfig(rank=rank, world_size=world, num_workers=n, seed_offset=seed)

def loader(ds):
    return get_savable_loader(ds, worker_config=ds.worker_config)

def out(v):
    return VSample(__key__=str(v), __restore_key__=(), __subflavor__=None, __subflavors__=None, val=v)
'''

# Appended for demonstrations with webdatasets
WDS = LIB + '''
import io, struct, tarfile, tempfile, atexit, shutil, contextlib, yaml
from megatron.energon import get_train_dataset, get_val_dataset, TaskEncoder, TextSample
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)

@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield

def tar(path, entries, index=True):
    """entries: (name, data, begins a sample)"""
    offs, buf = [], io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w") as t:
        for name, data, first in entries:
            if first:
                offs.append(t.offset)
            i = tarfile.TarInfo(name)
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))
        offs.append(t.offset)
    open(path, "wb").write(buf.getvalue())
    if index:
        with open(path + ".idx", "wb") as f:
            for o in offs:
                f.write(struct.pack("Q", o))

def meta(path, counts, config=None, parts=None, exclude=()):
    os.makedirs(f"{path}/.nv-meta", exist_ok=True)
    def put(n, d):
        yaml.safe_dump(d, open(f"{path}/.nv-meta/{n}", "w"))
    put(".info.yaml", {"shard_counts": counts})
    put("split.yaml", {"split_parts": parts or {"train": list(counts), "val": list(counts)}, "exclude": list(exclude)})
    put("dataset.yaml", config or {"__module__": "megatron.energon", "__class__": "TextWebdataset", "field_map": {"text": "txt"}})

def texts(name, counts, first=0, **kw):
    """Shards with numbered texts."""
    path = f"{TMP}/{name}"
    os.makedirs(path, exist_ok=True)
    i, names = first, {}
    for k, n in enumerate(counts):
        tar(f"{path}/{k:03}.tar", [(f"s{j:04}.txt", str(j).encode(), True) for j in range(i, i + n)])
        names[f"{k:03}.tar"] = n
        i += n
    meta(path, names, **kw)
    return path

def blend(name, entries, kind="blend", split="train", **kw):
    p = f"{TMP}/{name}.yaml"
    yaml.safe_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {split: {kind: entries, **kw}}}, open(p, "w"), sort_keys=False)
    return p

class Enc(TaskEncoder):
    pass

def train(path, c, **kw):
    kw = dict(batch_size=None, shuffle_buffer_size=None, max_samples_per_sequence=None, task_encoder=Enc()) | kw
    with quiet():
        return get_train_dataset(path, worker_config=c, **kw)

def val(path, c, **kw):
    kw = dict(batch_size=None, task_encoder=Enc()) | kw
    with quiet():
        return get_val_dataset(path, worker_config=c, **kw)

def take(ld, n=None):
    res = []
    with quiet():
        it = iter(ld)
        for x in it:
            res.append(int(x.text))
            if len(res) == n:
                break
        del it
    return res
'''
