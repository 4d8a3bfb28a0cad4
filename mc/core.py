"""Exhaustive explorer: enumerates the units of a check in forked workers.

A check module (mc/checks/cNN.py) describes a finite space as a list of
*units* (plain JSON dictionaries).  ``run(unit, rec)`` explores one unit
completely: it executes the real code on every element of the unit's subspace
and compares each with a reference model.  ``rec.fail`` reports a violation.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("PTWT_REPO", "/repo"))
# a unit that covers nothing new for this long hangs in a call
STALL_LIMIT_S = {"quick": 150, "thorough": 900}
CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
HARD_LIMIT_S = {"quick": 780, "thorough": 6 * 3600}


class Violation(Exception):
    """The property is broken."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class HarnessError(Exception):
    """The check itself could not do its work."""


class UnitTimeout(BaseException):
    pass


class _Null:
    def write(self, *_):
        return 0

    def flush(self):
        pass


def key_hash(key) -> int:
    digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(digest, "big")


class Rec:
    """Collects what a unit covered."""

    def __init__(self, tier="quick", seed=1):
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.distinct = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.known = {}
        self.sample = None
        self.samples = []

    # -- coverage ---------------------------------------------------------
    def case(self, key, nontrivial=True):
        self.evaluations += 1
        self.sample = key
        if nontrivial:
            self.distinct.add(key_hash(key))
            if len(self.samples) < 1:
                self.samples.append(key)

    def state(self, key):
        h = key_hash(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts ---------------------------------------------------------
    def fail(self, msg, case=None):
        raise Violation(msg, case if case is not None else self.sample)

    def check(self, cond, msg, case=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, case)

    def known_finding(self, ident):
        self.known[ident] = self.known.get(ident, 0) + 1

    def dump(self):
        return dict(
            evaluations=self.evaluations,
            distinct=self.distinct,
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            extra=self.extra,
            known=self.known,
            samples=self.samples,
        )


def jsonable(obj):
    import numpy as np
    import torch

    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, bool)) or obj is None:
        return obj
    if isinstance(obj, float):
        return obj if math.isfinite(obj) else repr(obj)
    if isinstance(obj, torch.Tensor):
        return f"tensor{tuple(obj.shape)}:{obj.dtype}"
    if isinstance(obj, np.ndarray):
        return f"ndarray{obj.shape}:{obj.dtype}"
    return repr(obj)


# ---------------------------------------------------------------- workers
_CHECK = None
_TIER = "quick"
_SEED = 1


def reset_environment():
    """Give every unit the same process-wide torch settings."""
    import torch

    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    torch.set_num_threads(1)
    torch.manual_seed(_SEED)
    warnings.simplefilter("ignore")


def run_unit(unit, check, tier, seed):
    """Run one unit; returns (status, payload)."""
    rec = Rec(tier, seed)
    reset_environment()

    last = [None, time.monotonic()]

    def on_alarm(*_):
        now = (rec.evaluations, rec.transitions, rec.traces, len(rec.states), sum(rec.extra.values()))
        if now != last[0]:
            last[:] = now, time.monotonic()
        elif time.monotonic() - last[1] > STALL_LIMIT_S[tier]:
            raise UnitTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        check.run(unit, rec)
        return "ok", rec.dump()
    except Violation as exc:
        return "violation", dict(
            unit=unit,
            msg=exc.msg,
            case=jsonable(exc.case),
            known=rec.known,
            trace=traceback.format_exc()[-3000:],
        )
    except UnitTimeout:
        return "violation", dict(
            unit=unit,
            msg="a call did not return",
            case=jsonable(rec.sample),
            known=rec.known,
            trace=traceback.format_exc()[-3000:],
        )
    except (HarnessError, MemoryError, OSError, KeyboardInterrupt):
        return "harness", dict(unit=unit, trace=traceback.format_exc()[-3000:])
    except BaseException as exc:  # noqa: B902
        # The harness only uses documented results.  An exception here means
        # that a call that must answer raised, or returned something else
        # than documented.
        return "violation", dict(
            unit=unit,
            msg=f"unexpected {type(exc).__name__}: {exc}"[:600],
            case=jsonable(rec.sample),
            known=rec.known,
            trace=traceback.format_exc()[-3000:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(arg):
    idx, unit = arg
    t0 = time.time()
    status, payload = run_unit(unit, _CHECK, _TIER, _SEED)
    return idx, status, payload, time.time() - t0


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stderr = _Null()


def load_known(prop):
    path = VERIF / "KNOWN_FINDINGS.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {
        e["id"]: e
        for e in data.get("known", [])
        if prop in e["properties"]
    }


def main(argv):
    global _CHECK, _TIER, _SEED
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--slow", action="store_true", help="print slowest units")
    args = ap.parse_args(argv)

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    _TIER, _SEED = tier, seed

    t0 = time.time()
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    import ptwt

    src = pathlib.Path(ptwt.__file__).resolve()
    if REPO.resolve() not in src.parents:
        print(f"ptwt was imported from {src}, not from {REPO}")
        return 2

    check = importlib.import_module(f"mc.checks.{args.prop.lower()}")
    _CHECK = check
    known = load_known(args.prop)

    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        status, payload = run_unit(data["unit"], check, data.get("tier", tier), data.get("seed", seed))
        print(status, json.dumps(jsonable(payload), indent=1)[:4000])
        return 1 if status == "violation" else (0 if status == "ok" else 2)

    units = check.units(tier, seed)
    if not units:
        print("no units")
        return 2
    order = list(range(len(units)))
    cost = getattr(check, "cost", None)
    if cost is not None:
        order.sort(key=lambda i: -cost(units[i]))

    total = Rec(tier, seed)
    violations, harness, times = [], [], []
    done = 0
    capped = False
    limit = HARD_LIMIT_S[tier]
    ctx = mp.get_context("fork")
    # a check about histories gets a new process for every unit
    fresh = 1 if getattr(check, "FRESH", False) else None
    pool = ctx.Pool(args.jobs, initializer=_init_worker, maxtasksperchild=fresh)
    procs = {}
    try:
        it = pool.imap_unordered(_worker, [(i, units[i]) for i in order], chunksize=1)
        while done < len(units):
            left = limit - (time.time() - t0)
            if left <= 0:
                capped = True
                break
            procs.update({p.pid: p for p in list(pool._pool)})
            crashed = [p.exitcode for p in procs.values() if p.exitcode not in (None, 0)]
            if crashed:
                # the unit of a dead worker never answers
                if any(-c in CRASH_SIGNALS for c in crashed):
                    violations.append(dict(
                        unit=None, msg=f"a call crashed the process (exit codes {crashed})",
                        case="units in progress", trace=""))
                else:
                    harness.append(dict(unit=None, trace=f"a worker died: {crashed}"))
                break
            try:
                idx, status, payload, dt = it.next(timeout=min(left, 2))
            except mp.TimeoutError:
                continue
            done += 1
            times.append((dt, idx))
            for k, v in payload.get("known", {}).items():
                total.known[k] = total.known.get(k, 0) + v
            if status == "ok":
                total.evaluations += payload["evaluations"]
                total.distinct |= payload["distinct"]
                total.states |= payload["states"]
                total.transitions += payload["transitions"]
                total.traces += payload["traces"]
                for k, v in payload["extra"].items():
                    total.extra[k] = total.extra.get(k, 0) + v
                if len(total.samples) < 6:
                    total.samples.extend(payload["samples"])
            elif status == "violation":
                violations.append(payload)
                break
            else:
                harness.append(payload)
                break
    finally:
        pool.terminate()
        pool.join()

    wall = time.time() - t0
    if args.slow:
        for dt, idx in sorted(times, reverse=True)[:int(os.environ.get("SLOWN", "12"))]:
            print(f"  {dt:7.2f}s {units[idx]}")

    # listed findings: accepted in the exact form that is listed, else violations
    for ident in list(total.known):
        if ident not in known and not violations:
            violations.append(
                dict(
                    unit=None,
                    msg=f"deviation '{ident}' is not a listed finding of {args.prop}",
                    case=ident,
                    trace="",
                )
            )

    coverage = dict(
        exhaustive=bool(not capped and not violations and not harness),
        units=len(units),
        units_completed=done,
        samples=jsonable(total.samples[:6]) or ["none"],
        **{k: v for k, v in sorted(total.extra.items())},
    )
    level = check.LEVEL
    if level in ("exploration", "fault_enumeration"):
        coverage.update(
            evaluations=total.evaluations,
            distinct_nontrivial=len(total.distinct),
            rule=check.RULE,
        )
    else:
        coverage.update(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
            rule=check.RULE,
        )
        if total.evaluations:
            coverage["comparisons"] = total.evaluations
    if capped:
        coverage["cap"] = f"stopped after {limit} s with {done} of {len(units)} units"
    if total.known:
        coverage["known_findings_seen"] = total.known
    evidence = dict(
        property=args.prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=coverage,
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{args.prop}.json").write_text(
        json.dumps(evidence, indent=1) + "\n"
    )

    if violations:
        v = violations[0]
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        name = f"{args.prop}-{key_hash((v['unit'], v['msg'])):016x}.json"
        path = rdir / name
        path.write_text(
            json.dumps(
                jsonable(dict(property=args.prop, tier=tier, seed=seed, **v)), indent=1
            )
        )
        print(f"{args.prop}: {v['msg']}")
        print(f"  case: {json.dumps(jsonable(v['case']))[:1500]}")
        print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    if harness:
        print("harness error\n" + harness[0]["trace"])
        return 2
    for ident, n in sorted(total.known.items()):
        print(f"KNOWN-FINDING: property={args.prop} {known[ident]['what']} ({n} cases)")
    if level in ("exploration", "fault_enumeration"):
        cov = f"{total.evaluations} executions, {len(total.distinct)} distinct"
    else:
        cov = f"{len(total.states)} states, {total.transitions} transitions, {total.traces} traces"
    print(
        f"{args.prop}: held on everything explored ({cov}, {done}/{len(units)} units, "
        f"{wall:.1f} s{', CAPPED' if capped else ''})"
    )
    return 0
