"""Shared machinery of the conformance harness.

Imports the code under test from /repo/src, provides scratch directories, virtual worker
processes, the TLC runner and the verdict/evidence plumbing used by every check.
"""

import atexit
import copy
import gc as _gc
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import types
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

warnings.simplefilter("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")

# A full garbage collection after every sample is the library's default; it costs 0.1 s per sample
# in a process which has torch loaded and has no effect on the data. Replace the call.
_real_collect = _gc.collect
_gc.collect = lambda *a, **k: 0
# Used for finding CUDA tensors when a worker process starts.
_gc.get_objects = lambda *a, **k: []
# The default error handlers print every exception (of the injected failures).
_real_print_exc = traceback.print_exc
traceback.print_exc = lambda *a, **k: None


class MachineryError(Exception):
    """The check itself failed (not a verdict about the code)."""


# --------------------------------------------------------------------------------------------
# Scratch
# --------------------------------------------------------------------------------------------

_scratch = None
_main_pid = os.getpid()


def scratch(*parts):
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_energon_")

        def _rm(path=_scratch):
            if os.getpid() == _main_pid and path.startswith(tempfile.gettempdir()):
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_rm)
    p = os.path.join(_scratch, *parts)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


# --------------------------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------------------------


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = re.findall(r"Invariant (\S+) is violated", out) + re.findall(
            r"Action property (\S+) is violated", out
        )
        self.ok = "Model checking completed. No error has been found." in out

    def messages(self, tag):
        """Values printed by PrintT(<<tag, ...>>)."""
        return [
            line for line in self.out.splitlines() if line.startswith('<<"%s"' % tag)
        ]


def run_tlc(
    module,
    cfg_text,
    *,
    env=None,
    workers=None,
    extra=(),
    timeout=800,
    heap="6g",
    files=None,
    coverage=False,
    props=(),
):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=os.path.dirname(scratch("tlc", "x")))
    for name in os.listdir(SPEC):
        if name.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, name), os.path.join(work, name))
    for name, text in (files or {}).items():
        with open(os.path.join(work, name), "w") as f:
            f.write(text)
    with open(os.path.join(work, "run.cfg"), "w") as f:
        f.write(cfg_text)
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-Xss16m",
        "-Xmx" + heap,
        *["-D" + p for p in props],
        "-cp",
        JARS,
        "tlc2.TLC",
        "-noGenerateSpecTE",
        "-metadir",
        os.path.join(work, "states"),
        "-workers",
        str(workers or NCPU),
        "-config",
        "run.cfg",
        *(["-coverage", "1"] if coverage else []),
        *extra,
        module + ".tla",
    ]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd,
            cwd=work,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module} after {timeout}s")
    res = TlcResult(p.stdout, p.returncode, time.time() - t0)
    res.work = work
    return res


def check_model(module, cfg_text, **kw):
    """Exhaustive run which has to succeed: a counterexample in the design itself means that the
    specification is wrong, which is a machinery failure and no verdict about the code."""
    res = run_tlc(module, cfg_text, **kw)
    if not res.ok:
        sys.stderr.write(res.out[-6000:])
        raise MachineryError(f"TLC rejects the model {module}: {res.violated}")
    return res


def validate_traces(module, traces, cfg_text=None, *, spec="Spec", inv="Accepted", timeout=800, heap="6g"):
    """Check recorded traces against the trace specification <module>.

    `traces` is a list of JSON-able records; the module reads them from the file named by the
    TRACES environment variable. The trace specification is total: each trace ends in a state
    where the variable `bad` names the clause which failed ("" if none). `Accepted` is the
    invariant bad = "". Returns (result, failures); failures is a list of (trace index, clause,
    event index).
    """
    path = scratch("traces", f"{module}_{time.time_ns()}.json")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    cfg = cfg_text or f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nINVARIANT {inv}\n"
    res = run_tlc(module, cfg, env={"TRACES": path}, extra=["-continue"], timeout=timeout, heap=heap)
    fails = []
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]*)"', res.out):
        t, ev = traces[int(m.group(1)) - 1], int(m.group(2))
        detail = json.dumps(t["ev"][ev - 1])[:200] if 0 < ev <= len(t.get("ev", [])) else ""
        fails.append((int(m.group(1)) - 1, m.group(3), ev, detail))
    done = len(set(re.findall(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', res.out)))
    res.accepted = done
    if "Finished in" not in res.out and "states generated" not in res.out:
        sys.stderr.write(res.out[-6000:])
        raise MachineryError(f"TLC failed on trace module {module}")
    if re.search(r"(TLC threw an unexpected exception|Error: Evaluating|Error: In evaluation|attempted to|Parsing or semantic analysis failed|Error: The first argument)", res.out):
        sys.stderr.write(res.out[-6000:])
        raise MachineryError(f"TLC could not evaluate trace module {module}")
    fails = sorted(set(fails))
    rejected = {f[0] for f in fails}
    if done + len(rejected) != len(traces):
        sys.stderr.write(res.out[-6000:])
        raise MachineryError(
            f"TLC decided {done} accepted + {len(rejected)} rejected of {len(traces)} traces in {module}"
        )
    return res, fails


# --------------------------------------------------------------------------------------------
# Verdicts and evidence
# --------------------------------------------------------------------------------------------


class Check:
    """One run of the check of one property."""

    last = None

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.rng = random.Random(f"{SEED}/{prop}")
        self.known_findings = load_known(prop)
        Check.last = self

    def add_model(self, name, res):
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault("models", {})[name] = {
            "distinct_states": res.distinct,
            "states_generated": res.generated,
            "depth": res.depth,
            "wall_s": round(res.wall, 1),
        }

    def add_traces(self, name, res, n):
        self.add_model("trace:" + name, res)
        self.traces += n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """`key` identifies the failing input/history for the known findings list."""
        if key is not None and key in self.known_findings:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, what))
            return
        self.violations.append((what, replay))

    def run_traces(self, module, traces, *, name=None, describe=None, keys=None, timeout=800, chunk=4000, heap="6g"):
        """Validate; each rejected trace becomes a violation."""
        fails_all = []
        for c0 in range(0, len(traces), chunk):
            part = traces[c0 : c0 + chunk]
            res, fails = validate_traces(module, part, timeout=timeout, heap=heap)
            self.add_traces((name or module) + (f"#{c0}" if c0 else ""), res, len(part))
            fails_all += [(i + c0, cl, ev, extra) for i, cl, ev, extra in fails]
        for i, clause, ev, extra in fails_all:
            t = traces[i]
            self.violation(
                f"clause {clause} at event {ev} of trace {t.get('name', i)}{extra}",
                {"trace": t, "clause": clause, "event": ev},
                key=(keys(t, clause) if keys else t.get("key")),
            )
        return fails_all

    def finish(self):
        wall = time.time() - self.t0
        for key, what in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {key}: {what}"[:600])
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump(
                    [{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1, default=str
                )
            for w, _ in self.violations[:5]:
                print(f"  {self.prop}: {w}"[:1000])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(
            f"OK property={self.prop} states={self.states} transitions={self.transitions} "
            f"traces={self.traces} wall={wall:.1f}s"
        )
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    keys = set()
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                keys.add(m.group(2))
    return keys


# --------------------------------------------------------------------------------------------
# Virtual workers
# --------------------------------------------------------------------------------------------


def import_energon():
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    # Seeding queues calls for devices which do not exist, with a stack trace each
    for dev in ("cuda", "xpu", "mtia", "mps"):
        mod = getattr(torch, dev, None)
        if mod is not None and not mod.is_available():
            for name in ("manual_seed_all", "manual_seed"):
                if hasattr(mod, name):
                    setattr(mod, name, lambda *a, **k: None)
    import megatron.energon as energon

    src = os.path.realpath(os.path.join(REPO, "src"))
    assert os.path.realpath(energon.__file__).startswith(src), energon.__file__
    return energon


def _classvars(cls):
    """The mutable class level attributes of the worker config (they act as process globals)."""
    res = {}
    for k, v in vars(cls).items():
        if k.startswith("__") or callable(v) or isinstance(v, (property, staticmethod, classmethod)):
            continue
        res[k] = v
    return res


class VirtualProcess:
    """Emulates the process globals of a data loader worker process within this process: the
    torch worker info, the class level state of WorkerConfig and the global random generators."""

    def __init__(self, worker_id=None, num_workers=0, seed=0):
        self.worker_id = worker_id
        self.num_workers = num_workers
        self.seed = seed
        self._saved = None
        self._mine = None
        self._rng = None

    def __enter__(self):
        import numpy as np
        import torch
        from torch.utils.data._utils import worker as tw

        from megatron.energon.worker import WorkerConfig

        assert self._saved is None, "virtual process entered twice"
        self._saved = (
            _classvars(WorkerConfig),
            tw._worker_info,
            torch.get_rng_state(),
            np.random.get_state(),
            random.getstate(),
        )
        if self._mine is None:
            # "fork": inherits everything from the parent
            if self.worker_id is not None:
                self._info = tw.WorkerInfo(
                    id=self.worker_id, num_workers=self.num_workers, seed=self.seed, dataset=None
                )
            else:
                self._info = None
        else:
            cv, rt, rn, rr = self._mine
            for k, v in cv.items():
                setattr(WorkerConfig, k, v)
            torch.set_rng_state(rt)
            np.random.set_state(rn)
            random.setstate(rr)
        tw._worker_info = self._info
        return self

    def __exit__(self, *a):
        import numpy as np
        import torch
        from torch.utils.data._utils import worker as tw

        from megatron.energon.worker import WorkerConfig

        self._mine = (
            _classvars(WorkerConfig),
            torch.get_rng_state(),
            np.random.get_state(),
            random.getstate(),
        )
        cv, info, rt, rn, rr = self._saved
        self._saved = None
        for k, v in cv.items():
            setattr(WorkerConfig, k, v)
        tw._worker_info = info
        torch.set_rng_state(rt)
        np.random.set_state(rn)
        random.setstate(rr)
        return False


def run_check(fn, prop):
    """Entry point wrapper: only exit 0, and exit 1 with a VIOLATION line, are verdicts."""
    try:
        rc = fn()
    except MachineryError as e:
        print("MACHINERY-ERROR", e)
        rc = Check.last.finish() if Check.last is not None and Check.last.violations else 2
    except BaseException as e:
        _real_print_exc()
        if _chain_in_repo(e):
            c = Check(prop)
            c.violation(
                f"unexpected exception {type(e).__name__}: {e}",
                {"text": "".join(traceback.format_exception(type(e), e, e.__traceback__))},
            )
            rc = c.finish()
        else:
            print("MACHINERY-ERROR unexpected exception")
            rc = Check.last.finish() if Check.last is not None and Check.last.violations else 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(_cleanup(rc))


def _cleanup(rc):
    if _scratch and os.getpid() == _main_pid:
        shutil.rmtree(_scratch, ignore_errors=True)
    return rc


# --------------------------------------------------------------------------------------------
# Parallel jobs
# --------------------------------------------------------------------------------------------


class JobTimeout(BaseException):
    """A job did not finish; raised by a timer in the job."""


def child_error(text):
    """The error of a child process with the text of its traceback."""
    e = RuntimeError(text[-2000:])
    e._in_repo = os.path.join(REPO, "src") in text[text.find("Traceback") :]
    return e


def _repo_frames(tb):
    src = os.path.join(REPO, "src")
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(src)]


def _run_job(fn, job, timeout):
    import signal

    def on_alarm(*a):
        raise JobTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    t0 = time.time()
    try:
        return ("ok", fn(job))
    except MachineryError as e:
        return ("machinery", str(e))
    except JobTimeout:
        tb = sys.exc_info()[2]
        fr = _repo_frames(tb)
        where = f"{fr[-1].filename}:{fr[-1].lineno} {fr[-1].name}" if fr else "the harness"
        return ("hang", f"no end after {time.time() - t0:.0f}s in {where}")
    except BaseException as e:
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_exception(type(e), e, tb))
        return ("exc" if _chain_in_repo(e) else "machinery", f"{type(e).__name__}: {e}\n{text}"[-4000:])
    finally:
        signal.alarm(0)


def _chain_in_repo(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if _repo_frames(e.__traceback__) or getattr(e, "_in_repo", False):
            return True
        e = e.__cause__ or e.__context__
    return False


def pmap(fn, jobs, *, timeout=120, procs=None):
    """Run fn(job) for all jobs in forked processes, in order. Each result is a pair (kind, value):
    "ok" with the value, or "exc" / "hang" / "machinery" with a text."""
    import multiprocessing as mp

    jobs = list(jobs)
    n = min(procs or NCPU, max(len(jobs), 1))

    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    parts = [list(range(k, len(jobs), n)) for k in range(n)]
    q_out = ctx.Queue()
    hangs = ctx.Value("i", 0)

    def work(part):
        for i in part:
            if hangs.value >= 4:
                # enough to tell; do not wait for all others
                q_out.put((i, ("skipped", "")))
                continue
            r = _run_job(fn, jobs[i], timeout)
            if r[0] == "hang":
                with hangs.get_lock():
                    hangs.value += 1
            q_out.put((i, r))
        q_out.close()
        q_out.join_thread()
        os._exit(0)

    ps = [ctx.Process(target=work, args=(p,)) for p in parts]
    sys.stdout.flush()
    for p in ps:
        p.start()
    import queue as _q

    left = len(jobs)
    idle = 0
    while left:
        try:
            i, r = q_out.get(timeout=5)
            res[i] = r
            left -= 1
            idle = 0
        except _q.Empty:
            idle += 5
            dead = [p for p in ps if p.exitcode not in (None, 0)]
            if dead and idle >= 10:
                break
            if idle > timeout + 60:
                break
    for p in ps:
        p.join(timeout=5 if left == 0 else 0.1)
        if p.is_alive():
            p.kill()
    for i, r in enumerate(res):
        if r is None:
            res[i] = ("hang", "the process of the job died or did not react to its timeout")
    return res


def collect(check, fn, jobs, *, timeout=120, what="job", key=None):
    """pmap; the values of the jobs which succeeded. An unexpected exception out of the code under
    test and a hang are violations, others failures of the machinery."""
    jobs = list(jobs)
    out = []
    failed = None
    for job, (kind, val) in zip(jobs, pmap(fn, jobs, timeout=timeout)):
        if kind == "ok":
            out.append(val)
        elif kind == "skipped":
            continue
        elif kind == "machinery":
            failed = failed or f"{what} {job!r}"[:300] + ": " + val
        else:
            last = val.strip().splitlines()[-1] if val.strip() else ""
            check.violation(
                f"{what} {str(job)[:200]}: {'unexpected exception' if kind == 'exc' else 'hangs'}: {val.splitlines()[0][:300] if val else ''} ... {last[:200]}",
                {"job": repr(job), "kind": kind, "text": val},
                key=key,
            )
    if failed:
        # what has been found so far counts
        raise MachineryError(failed)
    return out
