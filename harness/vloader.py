"""A deterministic stand-in for torch's multi process data loader iterator.

The real loader classes of the code under test run unmodified; only the operating system level
(worker processes, queues between processes, scheduling) is emulated, following the protocol of
torch's `_MultiProcessingDataLoaderIter` for iterable datasets with persistent workers. That makes
every schedule of the workers relative to the main process reproducible.
"""

import copy
import sys
import itertools
import pickle
import queue
import threading

from vlib import VirtualProcess

# Dropping the virtual workers tears down generators and threads out of order; that is an artefact
# of the emulation.
sys.unraisablehook = lambda *a: None
threading.excepthook = lambda *a: None


class FakeQueue:
    """Replaces a multiprocessing queue; identity survives the emulated fork."""

    def __init__(self):
        self.q = queue.Queue()
        self.before_get = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def put(self, x, *a, **k):
        # Crossing a process boundary copies
        try:
            x = pickle.loads(pickle.dumps(x))
        except Exception:
            x = copy.deepcopy(x)
        self.q.put(x)

    def get(self, block=True, timeout=None):
        if self.before_get is not None:
            self.before_get()
            timeout = 30 if timeout is None else timeout
        return self.q.get(block, timeout)

    def empty(self):
        return self.q.empty()

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class VWorker:
    def __init__(self, viter, wid):
        self.viter = viter
        self.wid = wid
        loader = viter.loader
        n = loader.num_workers
        self.proc = VirtualProcess(wid, n, seed=1000 + wid)
        memo = {}
        for q in list(getattr(loader, "cmd_queues", [])) + list(getattr(loader, "result_queues", [])):
            memo[id(q)] = q
        self.dataset = copy.deepcopy(loader.dataset, memo)
        self.tasks = []
        self.it = None
        self.iteration_end = False
        self.started = False
        self.n_out = 0
        import random

        import numpy as np
        import torch

        with self.proc:
            torch.manual_seed(1000 + wid)
            random.seed(1000 + wid)
            np.random.seed(1000 + wid)
            if loader.worker_init_fn is not None:
                loader.worker_init_fn(wid)
            self.it = iter(self.dataset)

    def resume(self):
        with self.proc:
            self.it = iter(self.dataset)
        self.iteration_end = False

    def step(self):
        """Process one task. Returns True if something was done."""
        if not self.tasks:
            return False
        idx = self.tasks.pop(0)
        if self.iteration_end:
            self.viter.rec("w", s=self.wid)
            return True
        self.started = True
        with self.proc:
            try:
                data = ("data", self.wid, copy.deepcopy(next(self.it)))
                self.n_out += 1
            except StopIteration:
                data = ("stop", self.wid, None)
                self.iteration_end = True
            except Exception as e:
                data = ("error", self.wid, e)
            # after a restore, the processes may take over each other's position
            self.true = self.viter.loader.worker_config.rank_worker_id()
        data += (self.true,)
        self.viter.data_queue.append((idx, data))
        self.viter.rec("w", s=self.wid, data=data)
        return True


class VIter:
    """Emulates torch.utils.data.dataloader._MultiProcessingDataLoaderIter"""

    def __init__(self, loader, sched):
        self.loader = loader
        self.sched = sched
        self.n = loader.num_workers
        self.data_queue = []
        for q in getattr(loader, "result_queues", []):
            q.before_get = self._ensure_started
        self.workers = [VWorker(self, i) for i in range(self.n)]
        self._reset(loader, first=True)

    def rec(self, e, **kw):
        """Reports an event to the listener of the loader."""
        fn = getattr(self.loader, "_vlisten", None)
        if fn is not None:
            fn(e, **kw)

    def _ensure_started(self):
        # The command thread of a worker exists only once it began to iterate. Which process answers
        # a queue is up to the code under test.
        for w in self.workers:
            while not w.started and w.step():
                pass

    def _reset(self, loader, first=False):
        self.send_idx = 0
        self.rcvd_idx = 0
        self.task_info = {}
        self.status = [True] * self.n
        self.cycle = itertools.cycle(range(self.n))
        listen, loader._vlisten = getattr(loader, "_vlisten", None), None
        if not first:
            # all outstanding work is finished before a worker acknowledges the resume
            for w in self.workers:
                while w.step():
                    pass
                w.resume()
            self.data_queue.clear()
        self.outstanding = 0
        for _ in range((loader.prefetch_factor or 2) * self.n):
            self._try_put()
        loader._vlisten = listen
        self.rec("I")
        self.sched.on_main(self)

    def _try_put(self):
        for _ in range(self.n):
            w = next(self.cycle)
            if self.status[w]:
                break
        else:
            return
        self.workers[w].tasks.append(self.send_idx)
        self.task_info[self.send_idx] = (w,)
        self.outstanding += 1
        self.send_idx += 1

    def __iter__(self):
        return self

    def _get_data(self):
        wid = self.task_info[self.rcvd_idx][0]
        spins = 0
        while not self.data_queue:
            if not self.sched.on_wait(self, wid):
                self.workers[wid].step()
            spins += 1
            assert spins < 10000, "emulated loader is stuck"
        self.rec("g")
        return self.data_queue.pop(0)

    def __next__(self):
        self.rec("n")
        while True:
            while self.rcvd_idx < self.send_idx:
                info = self.task_info[self.rcvd_idx]
                if len(info) == 2 or self.status[info[0]]:
                    break
                del self.task_info[self.rcvd_idx]
                self.rcvd_idx += 1
            else:
                raise StopIteration
            if len(self.task_info[self.rcvd_idx]) == 2:
                data = self.task_info.pop(self.rcvd_idx)[1]
                self.rcvd_idx += 1
                return self._process(data)
            idx, data = self._get_data()
            self.outstanding -= 1
            if data[0] == "stop":
                self.status[data[1]] = False
                self._try_put()
                continue
            if idx != self.rcvd_idx:
                self.task_info[idx] += (data,)
            else:
                del self.task_info[idx]
                self.rcvd_idx += 1
                return self._process(data)

    def _process(self, data):
        self._try_put()
        self.loader._vlast = data[3]
        self.rec("h")
        self.sched.on_main(self)
        if data[0] == "error":
            raise data[2]
        return data[2]

    def shutdown(self):
        for wid, w in enumerate(self.workers):
            ds = w.dataset
            w.it = None
            if getattr(ds, "_cmd_thread", None) is not None:
                for q in getattr(ds, "_cmd_queues", []) or []:
                    pass
                ds._cmd_queues[ds._worker_id].q.put((None,))


class Eager:
    """Workers always finish all their tasks before the main process continues."""

    name = "eager"

    def on_main(self, it):
        for w in it.workers:
            while w.step():
                pass

    def on_wait(self, it, wid):
        return False


class Lazy:
    """Workers only compute what the main process is waiting for."""

    name = "lazy"

    def on_main(self, it):
        pass

    def on_wait(self, it, wid):
        return False


class Random:
    name = "random"

    def __init__(self, rng, p=0.5):
        self.rng = rng
        self.p = p

    def on_main(self, it):
        for w in it.rng_order(self.rng) if hasattr(it, "rng_order") else self._order(it):
            while w.tasks and self.rng.random() < self.p:
                w.step()

    def _order(self, it):
        ws = list(it.workers)
        self.rng.shuffle(ws)
        return ws

    def on_wait(self, it, wid):
        # any worker may run before the one which is needed
        cand = [w for w in it.workers if w.tasks]
        if not cand:
            return False
        self.rng.choice(cand).step()
        return True


class Script:
    """Worker steps are done explicitly by the replayed behaviour."""

    name = "script"

    def on_main(self, it):
        pass

    def on_wait(self, it, wid):
        return False


def virtualize(loader, sched):
    """Let `loader` (a real loader object of the code under test) run on virtual workers."""
    if loader.num_workers > 0:
        for name in ("cmd_queues", "result_queues"):
            lst = getattr(loader, name, None)
            if lst is not None:
                lst[:] = [FakeQueue() for _ in lst]
        ds = loader.dataset
        for name, src in (("_cmd_queues", "cmd_queues"), ("_result_queues", "result_queues")):
            if hasattr(ds, name):
                setattr(ds, name, getattr(loader, src))
        loader._vsched = sched

        def get_iterator():
            loader._viter = VIter(loader, sched)
            return loader._viter

        loader._get_iterator = get_iterator
    return loader


def shutdown(loader):
    it = getattr(loader, "_viter", None)
    if it is not None:
        it.shutdown()
        loader._viter = None
