"""Running single (virtual) workers of the real loaders."""

import contextlib
import copy
import os
import multiprocessing
import random
import shutil
import signal
import tempfile

import vlib
from vlib import VirtualProcess

from megatron.energon import TaskEncoder, WorkerConfig, get_loader  # noqa: E402

_null = open(os.devnull, "w")


def quiet():
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(_null))
    st.enter_context(contextlib.redirect_stderr(_null))
    return st


def wconf(n, rank=0, world=1, seed_offset=0):
    return WorkerConfig(rank=rank, world_size=world, num_workers=n, seed_offset=seed_offset)


def kill_children(before):
    """The processes started since then (pids) are gone. Torch does not hear of it."""
    old = signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    try:
        for p in multiprocessing.active_children():
            if p.pid not in before:
                p.kill()
                p.join()
    finally:
        signal.signal(signal.SIGCHLD, old if old is not None else signal.SIG_DFL)


class Worker:
    """One worker process of a loader."""

    def __init__(self, loader, w):
        n = loader.num_workers
        self.proc = VirtualProcess(w if n else None, n, seed=1000 + w)
        self.dataset = copy.deepcopy(loader.dataset) if n else loader.dataset
        with self.proc:
            if n and loader.worker_init_fn is not None:
                loader.worker_init_fn(w)
        self.it = None

    def take(self, k=None):
        """k samples, or the rest of the epoch. Fewer at the end of an epoch."""
        res = []
        with self.proc, quiet():
            if self.it is None:
                self.it = iter(self.dataset)
            while k is None or len(res) < k:
                try:
                    s = next(self.it)
                    # the loader transports (worker, index, sample)
                    res.append(s[-1] if type(s) is tuple else s)
                except StopIteration:
                    self.it = None
                    break
        return res


def workers(ds):
    with quiet():
        loader = get_loader(ds)
    return [Worker(loader, w) for w in range(max(loader.num_workers, 1))]


@contextlib.contextmanager
def tmpdir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="verif_wds_", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
