"""Common machinery: facets, generated search, shrinking, replay files, evidence.

A *property* is decided by several *facets*.  A facet is a Hypothesis strategy
producing plain JSON data (the *case*) and a function that runs the real code
on that case and compares it with an oracle.  The function raises
:class:`Violation` if the property is broken, returns ``False`` if the case
turned out to be trivial (it decided nothing) and anything else otherwise.
"""
import argparse
import hashlib
import importlib
import json
import logging
import math
import mmap
import os
import signal
import struct
import sys
import time
import traceback
import types
import warnings
from multiprocessing import connection, get_context

import numpy as np

FACETS = {}
TIGHT = float(os.environ.get("VERIF_TIGHT", 1))  # <1: how close do passing checks come to their tolerance? (maintenance only)
HUNT = os.environ.get("VERIF_HUNT") == "1"  # one process, no shrinking, stop at the first failure (tools/mutate.py)
QUICK, THOROUGH = 3, 2  # multiples of the numbers of cases given by the facets
SHRINK_BUDGET = 45.0  # seconds spent on shrinking one failure


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The oracle cannot decide this case (counted as trivial)."""


class Facet:
    def __init__(self, pid, name, strategy, fn, quick, thorough, rule):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


def facet(pid, name, strategy, quick=200, thorough=None, rule=""):
    """Register `fn` as a facet of property `pid`."""
    def deco(fn):
        FACETS.setdefault(pid, {})
        assert name not in FACETS[pid], name
        FACETS[pid][name] = Facet(pid, name, strategy, fn, quick,
                                  thorough if thorough is not None else 12*quick, rule)
        return fn
    return deco


# ---------------------------------------------------------------------------
# assertions used by the facets
# ---------------------------------------------------------------------------
def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _fmt(x, n=6):
    x = np.asarray(x)
    flat = x.reshape(-1)
    body = ", ".join(repr(v) if not isinstance(v, np.generic) else str(v) for v in flat[:n])
    return f"shape{x.shape}[{body}{', ...' if flat.size > n else ''}]"


def has_shape(x, shape, what="result"):
    shape = tuple(shape)
    if np.shape(x) != shape:
        raise Violation(f"{what}: shape {np.shape(x)} instead of {shape}")


def close(actual, desired, rtol=1e-9, atol=1e-12, what="result", scale=None):
    """Elementwise comparison; NaN in `actual` is only accepted where `desired` is NaN."""
    actual_, desired_ = np.asarray(actual), np.asarray(desired)
    if actual_.dtype == object:
        actual_ = actual_.astype(complex)
    if actual_.shape != desired_.shape:
        raise Violation(f"{what}: shape {actual_.shape} instead of {desired_.shape}")
    if actual_.size == 0:
        return
    with np.errstate(all="ignore"):
        err = np.abs(actual_ - desired_)
        err = np.where(actual_ == desired_, 0., err)  # infinities
        err = np.where(np.isnan(actual_) & np.isnan(desired_), 0., err)
        ref = np.abs(desired_) if scale is None else np.broadcast_to(scale, err.shape)
        tol = (atol + rtol*ref)*TIGHT
        tol = np.where(np.isnan(tol), 0, tol)
        bad = ~(err <= tol)
    if np.any(bad):
        idx = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err/np.where(tol == 0, 1e-300, tol))*bad),
                               err.shape)
        raise Violation(
            f"{what}: mismatch at {tuple(int(i) for i in idx)}: got {actual_[idx]!s}, expected {desired_[idx]!s} "
            f"(|diff|={err[idx]!s}, tolerance={tol[idx]!s}); {int(bad.sum())}/{bad.size} elements differ"
        )


def finite(x, what="result"):
    if not np.all(np.isfinite(np.asarray(x))):
        raise Violation(f"{what}: not finite: {_fmt(x)}")


def raises(exc, fn, what="call"):
    """`fn` has to raise one of `exc`."""
    try:
        res = fn()
    except exc:
        return
    except Exception as err:
        raise Violation(f"{what}: raised {type(err).__name__}({err}) instead of "
                        f"{getattr(exc, '__name__', exc)}") from err
    raise Violation(f"{what}: returned {_fmt(np.asarray(res, dtype=object)) if res is not None else None}"
                    f" instead of raising {getattr(exc, '__name__', exc)}")


def pristine(fn, *args, **kwds):
    """Call `fn`; violation if it modifies any array argument."""
    arrays = [(k, v) for k, v in [*enumerate(args), *kwds.items()] if isinstance(v, np.ndarray)]
    copies = [v.copy() for _, v in arrays]
    res = fn(*args, **kwds)
    for (k, v), cp in zip(arrays, copies):
        same = v.dtype == cp.dtype and v.shape == cp.shape and v.tobytes() == cp.tobytes()
        ensure(same, lambda: f"{getattr(fn, '__name__', fn)} modified its input {k!r}")
    return res


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------
HARNESS_ERRORS = (MemoryError, OSError, ImportError, RecursionError, KeyboardInterrupt, NotImplementedError)


def _in_gftool(err, repo):
    tb = err.__traceback__
    root = os.path.join(os.path.realpath(repo), "gftool") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


CPU_LIMIT = 150.  # seconds of processor time for one case; the slowest (self-consistent) ones need 20


NOTICE = None  # shared with the parent process: length of the case, processor time at its start, the case
BOARD = 1 << 16


class Hang(BaseException):
    """A case used up its processor time; no `Exception`, such that nobody catches it."""


def _hang(signum, frame):
    raise Hang


class Run:
    """One facet run in one process."""

    def __init__(self, fct, repo):
        self.fct, self.repo = fct, repo
        self.evaluations = 0
        self.trivial = 0
        self.inconclusive = 0
        self.seen = set()
        self.samples = []
        self.failure = None
        self.harness_error = None
        self.first_failure = None
        self.labels = {}
        self.hung = False
        self.slowest = 0.

    def once(self, case):
        """Run the facet on `case` with limited processor time; returns violation message or None."""
        signal.signal(signal.SIGPROF, _hang)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        start = time.process_time()
        if NOTICE is not None:
            text = json.dumps(case).encode()
            if len(text) <= BOARD - 16:
                NOTICE[:16] = struct.pack("=qd", 0, 0.)
                NOTICE[16:16 + len(text)] = text
                NOTICE[:16] = struct.pack("=qd", len(text), start)
        try:
            return self._once(case)
        except Hang:
            self.hung = True
            return f"no result after {CPU_LIMIT:g} s of processor time: the call does not terminate"
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if NOTICE is not None:
                NOTICE[:8] = struct.pack("=q", 0)
            self.slowest = max(self.slowest, time.process_time() - start)

    def _once(self, case):
        self.evaluations += 1
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
        # verbosity must not influence results: every fourth case runs with debug messages enabled
        logging.getLogger("gftool").setLevel(logging.NOTSET if key[0] % 4 else logging.DEBUG)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    res = self.fct.fn(case)
        except Violation as err:
            return str(err)
        except Inconclusive:
            self.inconclusive += 1
            return None
        except HARNESS_ERRORS as err:
            if isinstance(err, (NotImplementedError, RecursionError)) and _in_gftool(err, self.repo):
                return f"unexpected {type(err).__name__}: {err}\n{traceback.format_exc(limit=-4)}"
            raise
        except Exception as err:
            if type(err).__module__.startswith("hypothesis"):
                raise
            where = "raised by the library" if _in_gftool(err, self.repo) else "while using the library's result"
            return f"unexpected {type(err).__name__} {where}: {err}\n{traceback.format_exc(limit=-4)}"
        if res is False:
            self.trivial += 1
            return None
        if isinstance(res, str):
            self.labels[res] = self.labels.get(res, 0) + 1
        if key not in self.seen:
            self.seen.add(key)
            if len(self.samples) < 3 and (len(self.seen) in (1, 5, 25)):
                self.samples.append(case)
        return None


class _Stop(Exception):
    pass


def run_facet(args):
    """Run one facet (in a worker process)."""
    pid, name, seed, max_examples, repo = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    fct = FACETS[pid][name]
    run = Run(fct, repo)
    start = time.time()

    def test(case):
        if run.first_failure is not None and (run.hung or time.time() - run.first_failure > SHRINK_BUDGET):
            return  # stop shrinking
        msg = run.once(case)
        if msg is not None:
            if run.first_failure is None:
                run.first_failure = time.time()
            text = json.dumps(case, sort_keys=True)
            if run.failure is None or len(text) <= len(run.failure[1]):
                run.failure = (msg, text)
            raise Violation("facet failed")

    wrapped = settings(
        max_examples=max_examples, deadline=None, database=None, print_blob=False,
        phases=(Phase.explicit, Phase.generate) if HUNT else (Phase.explicit, Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), derandomize=False,
    )(hypothesis.seed(seed)(given(fct.strategy)(test)))
    err = None
    try:
        wrapped()
    except Violation:
        pass
    except BaseException as exc:
        if run.failure is None:
            err = f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}"
    failure = None
    if run.failure is not None:
        failure = {"message": run.failure[0], "case": json.loads(run.failure[1])}
        # the replay has to be reproducible from the plain data alone
        check = Run(fct, repo)
        msg = failure["message"] if run.hung else check.once(failure["case"])
        if msg is not None:
            failure["message"] = msg
        else:  # depends on the calls before (hidden state in the library): the replay repeats the whole shard
            failure["shard"] = {"seed": seed, "max_examples": max_examples}
            failure["message"] += " [only after the preceding calls of this shard: the result depends on hidden state]"
    return {
        "facet": name, "evaluations": run.evaluations, "trivial": run.trivial,
        "inconclusive": run.inconclusive, "distinct": [k.hex() for k in run.seen],
        "samples": run.samples, "failure": failure, "error": err, "labels": run.labels,
        "wall_s": time.time() - start, "slowest": run.slowest,
    }


def _child(conn, job, board):
    global NOTICE
    NOTICE = board
    try:
        conn.send(run_facet(job))
    finally:
        conn.close()


def cpu_time(pid):
    """Processor time of process `pid`."""
    with open(f"/proc/{pid}/stat") as fh:
        fields = fh.read().rpartition(")")[2].split()
    return (int(fields[11]) + int(fields[12]))/os.sysconf("SC_CLK_TCK")


def stuck_case(proc, board):
    """The case on which `proc` hangs in compiled code, where signal handlers have no chance."""
    try:
        length, start = struct.unpack("=qd", board[:16])
        if not length or cpu_time(proc.pid) - start < 1.3*CPU_LIMIT:
            return None
        return json.loads(bytes(board[16:16 + length]))
    except (OSError, ValueError):  # just ended, or not a consistent state
        return None


def run_jobs(jobs, workers):
    """Run every job in its own forked process, so that no job sees state left by another."""
    ctx = get_context("fork")
    todo, running, results = list(jobs), {}, []
    while todo or running:
        while todo and len(running) < workers:
            job = todo.pop(0)
            recv, send = ctx.Pipe(duplex=False)
            board = mmap.mmap(-1, BOARD)
            proc = ctx.Process(target=_child, args=(send, job, board))
            proc.start()
            send.close()
            running[recv] = (proc, job, board)
        for recv in connection.wait(list(running), timeout=5):
            proc, job, board = running.pop(recv)
            try:
                results.append(recv.recv())
            except EOFError:
                proc.join()
                results.append(empty_result(job, error=f"worker ended with exit code {proc.exitcode}"))
            recv.close()
            proc.join()
            board.close()
            if HUNT and results[-1]["failure"]:
                todo.clear()
        for recv, (proc, job, board) in list(running.items()):
            case = stuck_case(proc, board)
            if case is None or recv.poll():
                continue
            del running[recv]
            proc.kill()
            proc.join()
            recv.close()
            results.append(empty_result(job, failure={"message": "the call does not terminate", "case": case}))
    return results


def empty_result(job, error=None, failure=None):
    return {"facet": job[1], "evaluations": 0, "trivial": 0, "inconclusive": 0, "distinct": [], "samples": [],
            "failure": failure, "labels": {}, "wall_s": 0., "slowest": 0., "error": error}


def facet_seed(seed, pid, name, shard):
    dig = hashlib.sha256(f"{seed}/{pid}/{name}/{shard}".encode()).digest()
    return int.from_bytes(dig[:6], "big")


def load_gftool(repo):
    """Import the library from the working tree `repo`."""
    logging.getLogger("gftool").addHandler(logging.NullHandler())  # keep the last-resort handler quiet
    version_file = os.path.join(repo, "gftool", "_version.py")
    if not os.path.exists(version_file):  # generated, git-ignored file
        mod = types.ModuleType("gftool._version")
        mod.__version__ = mod.version = "0+verif"
        mod.version_tuple = mod.__version_tuple__ = (0, "verif")
        sys.modules["gftool._version"] = mod
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import gftool
        for sub in ("pade", "polepade", "hermpade", "siam", "cpa", "beb", "fourier", "linalg", "linearprediction",
                    "matrix", "statistics", "density", "lattice", "basis", "basis.pole"):
            importlib.import_module("gftool." + sub)
    root = os.path.realpath(os.path.join(repo, "gftool")) + os.sep
    if not os.path.realpath(gftool.__file__).startswith(root):
        raise RuntimeError(f"gftool imported from {gftool.__file__}, expected {root}")
    return gftool


def load_props(here):
    for fname in sorted(os.listdir(os.path.join(here, "props"))):
        if fname.endswith(".py") and not fname.startswith("_"):
            importlib.import_module("props." + fname[:-3])


def prop_modules(here):
    """Map property id to the module declaring it, from the MODULES table."""
    from props import MODULES
    return MODULES


def known_findings(here, pid):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def main(argv, here, repo):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--facet", default=None)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--no-evidence", action="store_true")
    args = parser.parse_args(argv)
    global CPU_LIMIT
    if args.tier == "thorough":
        CPU_LIMIT = 600.
    start = time.time()
    load_gftool(repo)
    pid = args.property
    importlib.import_module("props." + prop_modules(here)[pid])
    importlib.import_module("props.units")
    facets = FACETS[pid]

    if args.replay:
        with open(args.replay) as fh:
            data = json.load(fh)
        if "shard" in data:
            res = run_facet((pid, data["facet"], data["shard"]["seed"], data["shard"]["max_examples"], repo))
            msg = res["failure"] and res["failure"]["message"]
        else:
            msg = Run(facets[data["facet"]], repo).once(data["case"])
        if msg is None:
            print(f"replay of {args.replay}: property {pid} holds on this case")
            return 0
        print(msg)
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1

    names = [args.facet] if args.facet else list(facets)
    jobs = []
    workers = 1 if HUNT else max(1, min(8, os.cpu_count() or 1))
    for name in names:
        fct = facets[name]
        total = QUICK*fct.quick if args.tier == "quick" else THOROUGH*fct.thorough
        total = max(1, int(total*args.scale))
        shards = 1 if HUNT else min(8, math.ceil(total/12))
        for shard in range(shards):
            jobs.append((pid, name, facet_seed(args.seed, pid, name, shard), math.ceil(total/shards), repo))
    results = run_jobs(jobs, workers)
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: (order[r["facet"]], json.dumps(r["failure"], sort_keys=True, default=str)))

    merged = {}
    for res in results:
        ent = merged.setdefault(res["facet"], {"evaluations": 0, "trivial": 0, "inconclusive": 0, "distinct": set(),
                                               "samples": [], "wall_s": 0., "labels": {}, "slowest": 0.})
        ent["slowest"] = max(ent["slowest"], res["slowest"])
        for key in ("evaluations", "trivial", "inconclusive", "wall_s"):
            ent[key] += res[key]
        ent["distinct"] |= set(res["distinct"])
        ent["samples"] += res["samples"]
        for lab, num in res["labels"].items():
            ent["labels"][lab] = ent["labels"].get(lab, 0) + num

    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    replays = []
    for res in failures:
        rdir = os.path.join(here, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{res['facet']}.json")
        if path in [p for p, _ in replays]:
            continue
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": res["facet"], "message": res["failure"]["message"],
                       "case": res["failure"]["case"],
                       **({"shard": res["failure"]["shard"]} if "shard" in res["failure"] else {}),
                       "how": f"python run.py {pid} --replay {os.path.relpath(path, here)}"}, fh, indent=1)
        replays.append((path, res))

    names = [n for n in names if n in merged]
    coverage = {
        "evaluations": sum(e["evaluations"] for e in merged.values()),
        "distinct_nontrivial": sum(len(e["distinct"]) for e in merged.values()),
        "rule": "cases are drawn by Hypothesis from the facet strategies (seeded by VERIF_SEED); a case is "
                "non-trivial if the real code was run on it and the oracle decided (cases where the facet "
                "reports nothing to compare, or where the oracle is inconclusive, are not counted); distinct "
                "by hash of the generated data. Facets: "
                + "; ".join(f"{n}: {facets[n].rule or (facets[n].fn.__doc__ or '').strip()}" for n in names),
        "samples": [{"facet": n, "case": s} for n in names for s in merged[n]["samples"][:1]][:12],
        "facets": {n: {"evaluations": e["evaluations"], "distinct_nontrivial": len(e["distinct"]),
                       "trivial": e["trivial"], "inconclusive": e["inconclusive"], "labels": e["labels"],
                       "cpu_s": round(e["wall_s"], 2), "slowest_case_cpu_s": round(e["slowest"], 2)} for n, e in merged.items()},
    }
    evidence = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": coverage, "wall_s": round(time.time() - start, 3), "violations": len(failures),
        "assumptions": ["double-precision arithmetic of the installed numpy/scipy/mpmath",
                        "tolerances stated per facet in the property modules under /verif/props"],
    }
    if not args.no_evidence and args.facet is None:
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)

    for name, ent in coverage["facets"].items():
        print(f"  {pid}/{name}: {ent['evaluations']} cases, {ent['distinct_nontrivial']} distinct non-trivial, "
              f"{ent['trivial']} trivial, {ent['inconclusive']} inconclusive, {ent['cpu_s']} s"
              + (f", {ent['labels']}" if ent["labels"] else ""))
    for entry in known_findings(here, pid):
        print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    for path, res in replays:
        print(f"--- {res['facet']}: {res['failure']['message']}")
        print(f"    case: {json.dumps(res['failure']['case'])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    if failures:
        return 1
    if errors:
        for res in errors:
            print(f"ERROR in check {pid}/{res['facet']}: {res['error']}", file=sys.stderr)
        return 2
    low = [n for n, e in merged.items() if len(e["distinct"]) == 0]
    if low:
        print(f"ERROR: facets without any non-trivial case: {low}", file=sys.stderr)
        return 2
    print(f"OK property={pid} tier={args.tier} seed={args.seed} cases={coverage['evaluations']} "
          f"nontrivial={coverage['distinct_nontrivial']} wall={evidence['wall_s']}s")
    return 0
