"""Core of the runtime-monitoring harness.

A check is a module in /verif/checks that declares *families* of seeded workloads.  Each case of a family drives the
real code of /repo and feeds monitors (`case.expect*`).  Verdicts are three-valued:

* exit 0 : every monitor held on everything explored, and every declared monitor was reached;
* exit 1 : a monitor observed a violation (prints ``VIOLATION property=<id> replay=<path>``);
* exit 2 : inconclusive (harness error, or a declared monitor / family was never reached).

Exceptions that travel through frames of the code under test are violations (the operation did not deliver on a valid
input); exceptions that never touched the code under test are harness errors.
"""

from __future__ import annotations

import argparse
import fnmatch
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
EVIDENCE = VERIF / "evidence"
REPLAYS = EVIDENCE / "replays"
KNOWN = VERIF / "KNOWN_FINDINGS.txt"
CASE_TIMEOUT_S = {"quick": 90, "thorough": 240}  # of CPU time: the machine may be busy
CASE_HANG_S = {"quick": 300, "thorough": 400}  # of elapsed time: deadlocks
RUN_BUDGET_S = float(os.environ.get("VERIF_BUDGET", "700"))  # cases that would start later are skipped (and counted)
_DEADLINE: float | None = None


class HarnessError(Exception):
    """Something is wrong with the harness itself, not with the code under test."""


class CaseTimeout(Exception):
    """A single case did not terminate."""


class StopCase(Exception):
    """Raised to abandon the case after a violation was recorded."""


def crc(text: str) -> int:
    return zlib.crc32(text.encode())


class Case:
    """One execution: a random stream, monitors, and the record of what they saw."""

    def __init__(self, prop: str, family: str, idx: int, seed: int, tier: str):
        import numpy as np

        self.prop, self.family, self.idx, self.seed, self.tier = prop, family, idx, seed, tier
        self.rng = np.random.default_rng([seed & 0x7FFFFFFF, crc(prop), crc(family), idx])
        self.monitors: Counter = Counter()
        self.events: Counter = Counter()
        self.violations: list[dict] = []
        self.desc: dict = {}
        self.trivial = False

    # -- describing the case -------------------------------------------------------------------------------------
    def describe(self, **kw):
        self.desc.update({k: _jsonable(v) for k, v in kw.items()})

    def event(self, name: str, n: int = 1):
        self.events[name] += n

    # -- monitors ------------------------------------------------------------------------------------------------
    def expect(self, ok, monitor: str, msg: str = "", **detail) -> bool:
        self.monitors[monitor] += 1
        if not bool(ok):
            self.violate(monitor, msg, **detail)
            return False
        return True

    def violate(self, monitor: str, msg: str = "", **detail):
        if len(self.violations) < 20:
            self.violations.append(
                dict(
                    monitor=monitor,
                    key=f"{self.family}/{monitor}",
                    msg=msg,
                    detail={k: _jsonable(v) for k, v in detail.items()},
                    case=dict(self.desc),
                )
            )

    def close(self, got, want, monitor: str, msg: str = "", rtol=1e-6, atol=0.0, scale=None, **detail) -> bool:
        """Max-norm comparison relative to the scale of the expected value (NaN never matches)."""
        import numpy as np

        g, w = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(want) else float), None
        w = np.asarray(want, dtype=g.dtype)
        if g.shape != w.shape:
            return self.expect(False, monitor, f"{msg}: shape {g.shape} != {w.shape}", **detail)
        if g.size == 0:
            return self.expect(True, monitor)
        err = float(np.max(np.abs(g - w)))
        ref = float(np.max(np.abs(w))) if scale is None else float(scale)
        tol = atol + rtol * ref
        return self.expect(err <= tol, monitor, f"{msg}: max error {err:.6g} > tolerance {tol:.6g}", err=err, tol=tol, **detail)

    def same(self, got, want, monitor: str, msg: str = "", **detail) -> bool:
        """Bit-for-bit equality (NaN equals NaN)."""
        import numpy as np

        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape and g.dtype == w.dtype and bool(np.array_equal(g, w, equal_nan=g.dtype.kind in "fc"))
        return self.expect(ok, monitor, msg, **detail)

    def finite(self, got, monitor: str, msg: str = "", **detail) -> bool:
        import numpy as np

        return self.expect(np.all(np.isfinite(got)), monitor, f"{msg}: non-finite values", **detail)


def _jsonable(v):
    import numpy as np

    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_jsonable(x) for x in list(v)[:40]]
    if isinstance(v, np.ndarray):
        return dict(shape=list(v.shape), dtype=str(v.dtype), head=[_jsonable(x) for x in v.ravel()[:8]])
    if isinstance(v, np.generic):
        return _jsonable(v.item())
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else str(v)
    return str(v)[:300]


def _unusable(exc: BaseException) -> bool:
    """Is it an exception of a workload on the outcome of the code under test (and not one of the harness, or of the system)?"""
    if isinstance(exc, (HarnessError, CaseTimeout)) or not isinstance(exc, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)):
        return False
    if isinstance(exc, AttributeError):  # private names are no interface
        return not str(getattr(exc, "name", None) or "_").startswith("_")
    return True


class Check:
    """A property's check: a set of workload families."""

    def __init__(self, prop: str, rule: str, assumptions: list[str] | None = None, scale: tuple[int, int] = (1, 1)):
        self.prop, self.rule, self.assumptions, self.scale = prop, rule, assumptions or [], scale
        self.families: dict[str, dict] = {}

    def family(self, name: str, quick: int, thorough: int | None = None, monitors: list[str] | None = None, serial=False):
        def deco(fun):
            self.families[name] = dict(
                fun=fun,
                quick=quick * self.scale[0],
                thorough=(thorough if thorough is not None else quick * 8) * self.scale[1],
                monitors=monitors or [],
                serial=serial,
            )
            return fun

        return deco

    # ------------------------------------------------------------------------------------------------------------
    def run_case(self, family: str, idx: int, seed: int, tier: str) -> dict:
        case = Case(self.prop, family, idx, seed, tier)
        out = dict(family=family, idx=idx, error=None)

        def on_alarm(signum, frame):
            limit = f"{CASE_TIMEOUT_S[tier]}s of CPU time" if signum == signal.SIGPROF else f"{CASE_HANG_S[tier]}s"
            raise CaseTimeout(f"case still running after {limit}")

        old = [(sig, signal.signal(sig, on_alarm)) for sig in (signal.SIGALRM, signal.SIGPROF)]
        signal.alarm(CASE_HANG_S[tier])
        signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT_S[tier])
        t0 = time.monotonic()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.families[family]["fun"](case)
        except StopCase:
            pass
        except Exception as exc:  # noqa: BLE001
            frames = traceback.extract_tb(exc.__traceback__)
            touched = [f for f in frames if "/corrct/" in f.filename and not f.filename.startswith(str(VERIF))]
            if touched and not isinstance(exc, HarnessError):
                last = touched[-1]
                case.monitors["no-unexpected-exception"] += 1
                case.violate(
                    "no-unexpected-exception",
                    f"{type(exc).__name__}: {str(exc)[:300]} (in {os.path.basename(last.filename)}:{last.name})",
                    traceback=[f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in frames[-8:]],
                )
            elif _unusable(exc):
                # No such exception occurs in the workloads on the outputs of the code as it is: an attribute that the
                # object does not have any more, an output of another shape or type, ...
                case.monitors["usable-result"] += 1
                case.violate(
                    "usable-result",
                    f"what the code returned could not be evaluated: {type(exc).__name__}: {str(exc)[:300]}",
                    traceback=[f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in frames[-8:]],
                )
            else:
                out["error"] = "".join(traceback.format_exception(exc))[-3000:]
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            for sig, handler in old:
                signal.signal(sig, handler)
        out.update(
            violations=case.violations,
            monitors=dict(case.monitors),
            events=dict(case.events),
            desc=case.desc,
            trivial=case.trivial or not case.monitors,
            secs=time.monotonic() - t0,
        )
        return out

    # ------------------------------------------------------------------------------------------------------------
    def main(self, argv: list[str] | None = None) -> int:
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--replay", default=None)
        ap.add_argument("--family", default=None, help="development: run only this family (glob)")
        ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
        ap.add_argument("--no-evidence", action="store_true")
        ap.add_argument("--times", action="store_true")
        args = ap.parse_args(argv)

        if args.replay:
            rec = json.loads(Path(args.replay).read_text())
            res = self.run_case(rec["family"], rec["idx"], rec["seed"], rec["tier"])
            print(json.dumps({k: res[k] for k in ("desc", "violations", "error", "monitors")}, indent=1))
            if res["error"]:
                return 2
            return self._report([res], args, write=False)

        global _DEADLINE
        t0 = time.monotonic()
        _DEADLINE = t0 + RUN_BUDGET_S
        tasks = [
            (f, i, args.seed, args.tier)
            for f, spec in self.families.items()
            if args.family is None or fnmatch.fnmatch(f, args.family)
            for i in range(spec[args.tier])
        ]
        results = self._run_all(tasks, args.jobs)
        if args.times:
            agg: Counter = Counter()
            for r in results:
                agg[r["family"]] += r["secs"]
            for f, s in agg.most_common():
                print(f"  time {f}: {s:.1f}s (max {max(r['secs'] for r in results if r['family'] == f):.1f}s)")
        return self._report(results, args, write=not args.no_evidence and args.family is None, t0=t0)

    def _run_all(self, tasks, jobs) -> list[dict]:
        if jobs <= 1:
            results = []
            for t in tasks:
                results.append(_guarded(self, *t))
                if os.environ.get("VERIF_STOP_FIRST") and any(self._known(v) is None for v in results[-1]["violations"]):
                    break  # development: tools/mutate.py
            return results
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool

        global _CURRENT
        _CURRENT = self
        # interleave heavy and light families: round-robin over case indices
        par = sorted((t for t in tasks if not self.families[t[0]]["serial"]), key=lambda t: (t[1], t[0]))
        ser = [t for t in tasks if self.families[t[0]]["serial"]]
        results: list[dict] = []
        try:
            with ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init_worker) as pool:
                chunk = max(1, min(8, len(par) // (jobs * 6) or 1))
                results += list(pool.map(_worker, par, chunksize=chunk))
            with ProcessPoolExecutor(1, mp_context=mp.get_context("fork"), initializer=_init_worker) as pool:
                results += list(pool.map(_worker, ser))
        except BrokenProcessPool as exc:
            results.append(
                dict(family="-", idx=-1, error=f"worker died: {exc}", violations=[], monitors={}, events={}, desc={}, trivial=True, secs=0)
            )
        return results

    def _known_entries(self) -> list[dict]:
        if not hasattr(self, "_known_cache"):
            self._known_cache = load_known(self.prop)
        return self._known_cache

    def _known(self, v: dict) -> dict | None:
        return next((e for e in self._known_entries() if e["key"] == v["key"] and e["match"](v)), None)

    def _report(self, results, args, write=True, t0=None) -> int:
        known = self._known_entries()
        hits: Counter = Counter()
        fresh: list[tuple[dict, dict]] = []
        monitors: Counter = Counter()
        events: Counter = Counter()
        sigs = set()
        errors = [r for r in results if r["error"]]
        per_family: Counter = Counter()
        for r in results:
            for m, n in r["monitors"].items():
                monitors[f"{r['family']}/{m}"] += n
            events.update(r["events"])
            if not r["trivial"] and not r["error"]:
                sigs.add(json.dumps([r["family"], r["desc"]], sort_keys=True, default=str))
                per_family[r["family"]] += 1
            for v in r["violations"]:
                k = self._known(v)
                if k is not None:
                    hits[k["line"]] += 1
                else:
                    fresh.append((r, v))
        for e in known:
            print(f"KNOWN-FINDING: property={self.prop} {e['what']} (observed {hits[e['line']]} times in this run)")

        unreached = []
        fams = {f for f in self.families if args.replay is None and (args.family is None or fnmatch.fnmatch(f, args.family))}
        for f in sorted(fams):
            if per_family[f] == 0 and self.families[f][args.tier] > 0:
                unreached.append(f)
            for m in self.families[f]["monitors"]:
                if monitors[f"{f}/{m}"] == 0 and self.families[f][args.tier] > 0:
                    unreached.append(f"{f}/{m}")

        skipped = sum(1 for r in results if r.get("skipped"))
        n_eval = len(results) - skipped
        if skipped:
            print(f"NOTE: {skipped} executions skipped after {RUN_BUDGET_S:.0f}s")
        wall = time.monotonic() - t0 if t0 else 0.0
        if write:
            EVIDENCE.mkdir(exist_ok=True)
            samples = []
            seen = set()
            for r in results:
                if r["family"] not in seen and not r["trivial"]:
                    seen.add(r["family"])
                    samples.append(dict(family=r["family"], case=r["idx"], **{"input": r["desc"]}))
            ev = dict(
                property=self.prop,
                tier=args.tier,
                seed=args.seed,
                level="exploration",
                coverage=dict(
                    evaluations=n_eval,
                    distinct_nontrivial=len(sigs),
                    rule=self.rule,
                    samples=samples[:12] or [{"note": "no non-trivial case"}],
                    monitor_evaluations=int(sum(monitors.values())),
                    monitors=dict(sorted(monitors.items())),
                    events=dict(sorted(events.items())),
                    cases_per_family=dict(per_family),
                    known_findings_observed=dict(hits),
                    harness_errors=len(errors),
                    skipped_for_time=skipped,
                    unreached_monitors=unreached,
                    exhaustive=False,
                ),
                assumptions=self.assumptions,
                wall_s=round(wall, 3),
                violations=len(fresh),
            )
            (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")

        print(
            f"{self.prop} tier={args.tier} seed={args.seed}: {n_eval} executions, {len(sigs)} distinct non-trivial,"
            f" {sum(monitors.values())} monitor evaluations, {len(fresh)} violations, {len(errors)} harness errors, {wall:.1f}s"
        )
        for r in errors[:3]:
            print(f"HARNESS-ERROR family={r['family']} case={r['idx']}\n{r['error']}")
        if fresh:
            REPLAYS.mkdir(parents=True, exist_ok=True)
            shown: Counter = Counter()
            for r, v in fresh:
                shown[v["key"]] += 1
                if shown[v["key"]] > 2 or len(shown) > 15:
                    continue
                path = REPLAYS / f"{self.prop}-{r['family']}-{r['idx']}-s{args.seed}.json"
                path.write_text(
                    json.dumps(dict(property=self.prop, family=r["family"], idx=r["idx"], seed=args.seed, tier=args.tier, violation=v), indent=1)
                )
                print(f"  monitor {v['key']}: {v['msg']}\n    case: {json.dumps(v['case'])[:600]}")
                if v["detail"].get("traceback"):
                    print("    " + " <- ".join(reversed(v["detail"]["traceback"])))
                print(f"VIOLATION property={self.prop} replay={path}")
            if len(fresh) > sum(min(2, n) for n in shown.values()):
                print("  violations per monitor: " + ", ".join(f"{k}={n}" for k, n in shown.most_common(12)))
            return 1
        if errors:
            return 2
        if unreached:
            print("INCONCLUSIVE: never reached: " + ", ".join(unreached))
            return 2
        return 0


_CURRENT: Check | None = None


def _init_worker():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(devnull, 2)


def _worker(task):
    return _guarded(_CURRENT, *task)


def _guarded(check, family, idx, seed, tier):
    if _DEADLINE is not None and time.monotonic() > _DEADLINE:
        return dict(family=family, idx=idx, error=None, violations=[], monitors={}, events={}, desc={}, trivial=True, secs=0, skipped=True)
    return check.run_case(family, idx, seed, tier)


def load_known(prop: str) -> list[dict]:
    """Parse the committed known-findings file (never written at run time).

    Lines ``finding: property=<id> key=<family/monitor> [when=<detail-or-case-field>=<value>[,...]] <what fails>``.
    """
    out = []
    if not KNOWN.exists():
        return out
    for line in KNOWN.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        toks = line[len("finding:") :].split()
        fields = {}
        while toks and "=" in toks[0] and toks[0].split("=")[0] in ("property", "key", "when"):
            k, _, v = toks.pop(0).partition("=")
            fields[k] = v
        if fields.get("property") != prop:
            continue
        conds = [c.split("=", 1) for c in fields.get("when", "").split(",") if c]

        def match(v, conds=conds):
            pool = {**v["case"], **v["detail"]}
            return all(str(pool.get(k)) == want for k, want in conds)

        out.append(dict(key=fields["key"], match=match, what=" ".join(toks), line=line))
    return out
