"""C14: independent calls in several threads."""
import itertools
import os
import pathlib
import sys
import threading

import numpy as np
import torch

import ptwt

from ..core import HarnessError, Violation
from ..ops import OPS
from ..util import F32, F64, dense, isolated, IsolatedError, same
from . import c13
from .c13 import WAVELETS, Call, fwd_call, inv_call, misc_calls, op_variants, plain, snapshot

LEVEL = "model_checking"
TECHNIQUE = (
    "stateless model checking of the implementation: exhaustive preemption-bounded enumeration of the "
    "schedules of two threads under a controlled scheduler, every result compared with the call run alone"
)
FRESH = True
RULE = (
    "stateless exploration of the implementation under a controlled scheduler: two threads, "
    "one running at a time, every line of the package executed by a thread is a point where "
    "the scheduler may switch. For each pair of calls all schedules with one preemption at "
    "every source line (its first executions, cold and warm process) are executed, pairs of "
    "different entry points at every function, the thorough tier also all schedules with two "
    "preemptions and single bytecode instructions. states: (pair, position of both threads at "
    "a switch); transitions: scheduling points executed; traces: schedules run on the code"
)
ASSUMPTIONS = [
    "a thread that does not come back within 4 s waits for a lock of the other one, which then goes on",
    "tensor operations are atomic for the scheduler",
]

ROOT = str(pathlib.Path(ptwt.__file__).resolve().parent) + os.sep
PATIENCE = 4.0
NAMES = c13.NAMES


class Sched:
    """Thread 0 runs up to point stops[0], thread 1 up to stops[1], ..."""

    def __init__(self, stops, opcodes=False):
        self.stops, self.seg = list(stops), 0
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.n = [0, 0]
        self.done = [False, False]
        self.out = [None, None]
        self.seen = [None, None]
        self.opcodes = opcodes
        self.blocked = False

    def tracer(self, tid):
        what = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == what:
                self.n[tid] += 1
                if self.seg < len(self.stops) and tid == self.seg % 2 and self.n[tid] >= self.stops[self.seg]:
                    self.switch(tid)
            return local

        def outer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        return outer

    def switch(self, tid):
        self.seg += 1
        if self.done[1 - tid]:
            return
        self.turn[1 - tid].release()
        if not self.turn[tid].acquire(timeout=PATIENCE):
            self.blocked = True

    def thread(self, tid, fn, args):
        if tid == 1:
            self.turn[1].acquire()
        self.seen[tid] = (torch.get_default_dtype(), torch.is_grad_enabled(), str(np.geterr()),
                          torch.are_deterministic_algorithms_enabled(), torch.get_num_threads())
        sys.settrace(self.tracer(tid))
        try:
            res = ("ok", fn(*args))
        except Exception as exc:  # noqa: B902
            res = ("exc", type(exc).__name__)
        finally:
            sys.settrace(None)
        self.out[tid] = res
        self.done[tid] = True
        self.turn[1 - tid].release()

    def go(self, first, second):
        ts = [threading.Thread(target=self.thread, args=(0, *first)),
              threading.Thread(target=self.thread, args=(1, *second))]
        for t in ts:
            t.daemon = True
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise Violation("a thread does not come to an end")


def trace_points(call, opcodes=False):
    """The (file, line) sequence of a call, measured in a process of its own."""

    def go():
        seq = []

        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                where = frame.f_code.co_filename[len(ROOT):] + f":{frame.f_lineno}:"
                seq.append(where + (str(frame.f_lasti) if opcodes else frame.f_code.co_name))
            return local

        def outer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local

        fn, args = call.build()
        sys.settrace(outer)
        try:
            fn(*args)
        except Exception:  # noqa: B902
            pass
        finally:
            sys.settrace(None)
        return seq

    return isolated(go)


def choose(seq, occurrences, functions=False):
    """Indices (from 1) of the points where a preemption is explored."""
    seen, res, last = {}, [], {}
    for i, where in enumerate(seq, 1):
        k = where.split(":")[0] + where.split(":")[2] if functions else where
        seen[k] = seen.get(k, 0) + 1
        last[k] = i
        if seen[k] <= occurrences:
            res.append(i)
    if occurrences > 1:
        res = sorted(set(res) | set(last.values()))
    return res


def outcome(call):
    def alone():
        fn, args = call.build()
        try:
            return ["ok", plain(fn(*args))]
        except Exception as exc:  # noqa: B902
            return ["exc", type(exc).__name__]

    if call.want is None:
        call.want = isolated(alone)
    return call.want


class Quiet:
    """Stands for Rec inside a child process."""

    @staticmethod
    def fail(msg, case=None):
        raise Violation(msg, case)


def judge(got, want, what):
    if got is None:
        raise Violation(f"{what}: no result")
    if got[0] != want[0]:
        raise Violation(f"{what}: {got[0]} {got[1] if got[0] == 'exc' else ''} instead of {want[0]} "
                        f"{want[1] if want[0] == 'exc' else ''}")
    if got[0] == "exc":
        if got[1] != want[1]:
            raise Violation(f"{what}: raises {got[1]} instead of {want[1]}")
        return
    same(Quiet, plain(got[1]), want[1], what)


def run_schedules(a, b, schedules, share, opcodes=False, after=True, thorough=False):
    """All schedules in this process; returns statistics or the violation."""
    visited, points, blocked = [], 0, 0
    base = None
    for stops in schedules:
        fa, argsa = a.build()
        fb, argsb = b.build()
        if share == "all":
            argsb = argsa
        elif share == "wavelet":
            argsb = argsb[:1] + argsa[1:2] + argsb[2:]
        elif share == "data":
            argsb = argsa[:1] + argsb[1:]
        both = (argsa, argsb)
        before = snapshot(both)
        s = Sched(stops, opcodes)
        try:
            s.go((fa, argsa), (fb, argsb))
            judge(s.out[0], a.want, "result of the interrupted call")
            judge(s.out[1], b.want, "result of the call in the other thread")
            if snapshot(both) != before:
                raise Violation("an argument changed")
            base = base or s.seen[0]
            if s.seen[1] != base:
                raise Violation(f"process-wide settings {s.seen[1]} instead of {base} seen in the other thread")
            if after and (thorough or stops is schedules[-1]):
                # what is left behind must not matter for later calls
                for c in (a, b):
                    fn, args = c.build()
                    judge(("ok", fn(*args)) if c.want[0] == "ok" else c.want, c.want, "later call")
        except Violation as exc:
            return ["violation", exc.msg, list(stops)]
        points += sum(s.n)
        blocked += s.blocked
        visited.append(tuple(s.n[:1]) + tuple(stops))
    return ["ok", len(visited), points, blocked]


def explore(rec, a, b, schedules, share, key, cold, opcodes=False):
    outcome(a)
    outcome(b)
    batches = [[s] for s in schedules] if cold else [schedules]
    for batch in batches:
        if not batch:
            continue
        try:
            res = isolated(lambda: run_schedules(a, b, batch, share, opcodes, after=not cold,
                                                 thorough=rec.tier != "quick"))
        except IsolatedError as exc:
            if exc.args[0] in ("MemoryError", "HarnessError"):
                raise HarnessError(str(exc)) from exc
            rec.fail(f"unexpected {exc}", (key, batch[:3]))
        if res[0] == "violation":
            rec.fail(res[1], dict(pair=key, schedule=res[2], cold=cold, shared=share))
        for s in batch:
            rec.state((key, share, cold, tuple(s)))
            rec.case((key, share, cold, tuple(s)))
        rec.traces += res[1]
        rec.transitions += res[2]
        rec.count("threads_waiting_for_a_lock", res[3])


# ---------------------------------------------------------------- the calls
def variants(name):
    op = OPS[name]
    vs = op_variants(op, True)
    if name in ("matrix2ns", "packet2b"):
        vs = [("haar",) + v[1:] for v in vs if v[0] in ("haar", "db2")]
    elif name != "matrix2nsgs":
        vs = [v for v in vs if v[0] != "haar"]
    seen = {}
    for v in vs:
        seen.setdefault(v, v)
    return list(seen)


def op_table(name):
    """label -> call for one entry point."""
    op = OPS[name]
    vs = variants(name)
    base = vs[0]
    res = {"fwd": fwd_call(op, base)}
    other = next((v for v in vs if v[0] != base[0] and v[4] is F64), None)
    if other is not None:
        res["fwd_other"] = fwd_call(op, other)
    res["fwd_data"] = fwd_call(op, base[:4] + ("other",))
    f32 = base[:4] + (F32,)
    res["fwd32"] = fwd_call(op, f32)
    mode = next((v for v in vs if v[1] != base[1]), None)
    if mode is not None:
        res["fwd_mode"] = fwd_call(op, mode)
    stored = [v for v in vs if v[0] == "db2rev"]
    tensors = ("db2tuple",) + (stored[0] if stored else base)[1:]
    if stored:
        # objects whose filters are lists and tensors that the threads share
        res["fwd_stored"] = fwd_call(op, stored[0])
        res["fwd_tuple"] = fwd_call(op, tensors)
        if op.has_inverse:
            res["inv_stored"] = inv_call(op, stored[0])
            res["inv_tuple"] = inv_call(op, tensors)
    if op.has_inverse:
        res["inv"] = inv_call(op, base)
        if other is not None:
            res["inv_other"] = inv_call(op, other)
        res["inv_data"] = inv_call(op, base[:4] + ("other",))
        res["inv32"] = inv_call(op, f32)
    return res


def failing(name):
    op = OPS[name]
    base = variants(name)[0]
    good = fwd_call(op, base)

    def build():
        fn, args = good.build()
        return (lambda x, w: op.fwd(x, "nosuchwavelet", base[1], base[2])), args

    return Call((name, "unknown wavelet"), build)


def failing_inv(name):
    op = OPS[name]
    good = inv_call(op, variants(name)[0])

    def build():
        fn, args = good.build()

        def bad(c, w):
            # the last level has a wrong dtype
            if isinstance(c, dict):
                return op.tree(c[""], w, op.modes[0], 1)["x"]
            last = c[-1]
            conv = lambda t: t.to(F32)  # noqa: E731
            last = conv(last) if isinstance(last, torch.Tensor) else (
                {k: conv(v) for k, v in last.items()} if isinstance(last, dict) else type(last)(*map(conv, last)))
            return op.inv(list(c[:-1]) + [last], w, None)

        return bad, args

    return Call((name, "bad coefficients"), build)


SLOW = {"packet1b", "matrix1", "matrix1gs", "packet2s", "matrix2ns", "matrix2nsgs", "packet2b", "matrix3",
        "fswavedec2", "fswavedec3", "packet2bs", "matrix2"}
# entry points whose cold schedules the quick tier takes function by function:
# their lines are those of other entry points
COARSE = {"matrix2nsgs", "packet2b", "packet2bs", "packet1b", "packet2s", "fswavedec3"}

MISC_PAIRS = [
    ("cwt cmor1.5-1.0", "cwt cmor1.5-1.0"), ("cwt cmor1.5-1.0", "cwt cmor2.5-1.0"),
    ("cwt mexh", "cwt mexh"), ("cwt mexh", "cwt gaus2"), ("cwt gaus2", "cwt shan1.5-1.0"),
    ("cwt mexh", "cwt f32"), ("cwt f32", "cwt mexh"), ("cwt mexh", "cwt other scales"),
    ("cwt mexh", "cwt other data"), ("cwt discrete", "cwt mexh"), ("cwt period", "cwt mexh"),
    ("cwt object", "cwt object"), ("cwt discrete", "cwt discrete"),
    (f"boundary_a db2 {F64}", f"boundary_a db2 {F64}"), (f"boundary_a db2 {F64}", f"boundary_a db2 {F32}"),
    (f"boundary_a db2 {F32}", f"boundary_a db2 {F64}"), (f"boundary_a db2 {F64}", f"boundary_a db2rev {F64}"),
    (f"boundary_s db2 {F64}", f"boundary_s db2 {F32}"), (f"boundary_s db2 {F64}", f"boundary_s db2 {F64}"),
    (f"boundary_a db2 {F64}", "boundary_a 12"), ("boundary_a gs", f"boundary_a db2 {F64}"),
    (f"boundary_a db2 {F64}", "boundary_a gs"),
    ("kron", "kron"), ("cat_eye", "cat_eye"), ("replace", "replace"), ("diag", "diag"), ("batch_mm", "batch_mm"),
    ("conv1d", "conv1d"), ("conv1d", "conv2d"), ("conv2d", "strided2"), ("strided2", "conv2d"),
    ("conv2d", "conv2d"), ("strided2", "strided2"),
    ("product filter", "product filter"), ("product filter", "product filter 2"),
    ("soft orthogonal", "soft orthogonal"), ("soft orthogonal", "product filter"),
]


def op_pairs(name, tier):
    """(label a, label b, share) of one entry point."""
    t = ["fwd"]
    second = [("fwd", "all"), ("fwd_other", "none"), ("fwd_data", "wavelet"), ("fwd32", "none"), ("fwd_mode", "data")]
    has_inv = OPS[name].has_inverse
    if has_inv:
        second += [("inv", "wavelet"), ("inv_other", "none")]
        t += ["inv"]
    res = []
    for a in t:
        for b, share in second:
            if a == "inv":
                b = {"fwd": "inv", "fwd_other": "inv_other", "fwd_data": "inv_data", "fwd32": "inv32",
                     "inv": "fwd", "inv_other": "fwd_other"}.get(b)
                if b is None:
                    continue
                share = "none" if share == "data" else share
            res.append((a, b, share))
    if tier == "quick" and name in SLOW:
        keep = {("fwd", "fwd_other"), ("inv", "inv_other")}
        if name == "matrix2nsgs":
            keep = {("fwd", "fwd"), ("inv", "inv")}
        return [r for r in res if r[:2] in keep] + [("fwd32", "fwd", "none")]
    res += [(f"{d}_{k}", f"{d}_{k}", "wavelet") for d in t for k in ("stored", "tuple")]
    # the mirrored dtype pair
    res += [("fwd32", "fwd", "none")] + ([("inv32", "inv", "none")] if has_inv else [])
    return res


def units(tier, seed):
    res = []
    for name in NAMES:
        for a, b, share in op_pairs(name, tier):
            res.append(dict(kind="warm", op=name, a=a, b=b, share=share))
        res.append(dict(kind="fail", op=name))
        res.append(dict(kind="cold", op=name, a="fwd", b="fwd", share="all"))
        if OPS[name].has_inverse:
            res.append(dict(kind="cold", op=name, a="inv", b="inv", share="all"))
        for other in NAMES:
            if other != name:
                res.append(dict(kind="cross", a=name, b=other))
        res.append(dict(kind="crossmisc", a=name))
        if tier == "thorough":
            for a, b, share in op_pairs(name, tier):
                res.append(dict(kind="two", op=name, a=a, b=b, share=share))
                if name not in SLOW:
                    res.append(dict(kind="opcode", op=name, a=a, b=b, share=share))
            res.append(dict(kind="cold", op=name, a="fwd", b="fwd_other", share="none"))
            res.append(dict(kind="cold", op=name, a="fwd", b="fwd32", share="none"))
    for a, b in MISC_PAIRS:
        res.append(dict(kind="misc", a=a, b=b))
    for label in sorted({a for a, b in MISC_PAIRS}):
        res.append(dict(kind="misccold", a=label))
    return res


def cost(unit):
    k = {"warm": 8, "fail": 8, "cold": 12, "cross": 2, "crossmisc": 3, "misc": 2, "misccold": 2, "two": 80,
         "opcode": 30}[unit["kind"]]
    return k * (4 if unit.get("op", unit["a"] if "a" in unit else "") in SLOW else 1)


def run_warm(unit, rec):
    table = op_table(unit["op"])
    if unit["a"] not in table or unit["b"] not in table:
        return
    a, b = table[unit["a"]], table[unit["b"]]
    quick = rec.tier == "quick"
    occ = 1 if quick else 4
    pts = choose(trace_points(a), occ)
    explore(rec, a, b, [(k,) for k in pts], unit["share"], ("pair", a.label, b.label), cold=False)


def run_fail(unit, rec):
    """One of the calls raises."""
    table = op_table(unit["op"])
    good = table["fwd"]
    bad = [failing(unit["op"])]
    if OPS[unit["op"]].has_inverse:
        bad.append(failing_inv(unit["op"]))
    for c in bad:
        if outcome(c)[0] != "exc":
            rec.fail("an invalid call returns a result", c.label)
        pts = choose(trace_points(good), 1)
        if rec.tier == "quick" and unit["op"] in SLOW:
            pts = choose(trace_points(good), 1, functions=True)
        explore(rec, good, c, [(k,) for k in pts], "none", ("pair", good.label, c.label), cold=False)
        pts = choose(trace_points(c), 1)
        explore(rec, c, good, [(k,) for k in pts], "none", ("pair", c.label, good.label), cold=False)


def run_cold(unit, rec):
    table = op_table(unit["op"])
    if unit["a"] not in table or unit["b"] not in table:
        return
    a, b = table[unit["a"]], table[unit["b"]]
    coarse = unit["op"] in COARSE or (unit["a"] == "inv" and unit["op"] in ("matrix2", "matrix3", "fswavedec2"))
    pts = choose(trace_points(a), 1, functions=rec.tier == "quick" and coarse)
    explore(rec, a, b, [(k,) for k in pts], unit["share"], ("pair", a.label, b.label), cold=True)


def run_cross(unit, rec):
    ta, tb = op_table(unit["a"]), op_table(unit["b"])
    quick = rec.tier == "quick"
    combos = [("fwd", "fwd32")]
    if not quick:
        combos += [("fwd", "fwd"), ("fwd", "inv32"), ("inv", "fwd32"), ("inv", "inv32")]
    for x, y in combos:
        if x not in ta or y not in tb:
            continue
        a, b = ta[x], tb[y]
        pts = choose(trace_points(a), 1, functions=quick)
        if quick and len(pts) > 10:
            pts = pts[::2]
        explore(rec, a, b, [(k,) for k in pts], "none", ("pair", a.label, b.label), cold=False)


def run_crossmisc(unit, rec):
    calls = {c.label[1]: c for c in misc_calls()}
    a = op_table(unit["a"])["fwd"]
    pts = choose(trace_points(a), 1, functions=True)
    for label in ("cwt mexh", "cwt shan1.5-1.0", f"boundary_a db2 {F32}", "strided2", "product filter"):
        b = calls[label]
        explore(rec, a, b, [(k,) for k in pts], "none", ("pair", a.label, b.label), cold=False)
        pb = choose(trace_points(b), 1, functions=True)
        explore(rec, b, a, [(k,) for k in pb], "none", ("pair", b.label, a.label), cold=False)


def run_misc(unit, rec):
    calls = {c.label[1]: c for c in misc_calls()}
    a, b = calls[unit["a"]], calls[unit["b"]]
    share = "all" if a is b else "none"
    pts = choose(trace_points(a), 1 if rec.tier == "quick" else 4)
    explore(rec, a, b, [(k,) for k in pts], share, ("pair", a.label, b.label), cold=False)
    if rec.tier != "quick":
        pb = choose(trace_points(b), 1)
        pa = choose(trace_points(a), 1)
        if len(pa) * len(pb) < 30000:
            explore(rec, a, b, list(itertools.product(pa, pb)), share, ("two", a.label, b.label), cold=False)


def run_misccold(unit, rec):
    calls = {c.label[1]: c for c in misc_calls()}
    a = calls[unit["a"]]
    pts = choose(trace_points(a), 1)
    explore(rec, a, a, [(k,) for k in pts], "all", ("pair", a.label, a.label), cold=True)


def run_two(unit, rec):
    """Two preemptions: A to k, B to m, A to the end, B to the end."""
    table = op_table(unit["op"])
    if unit["a"] not in table or unit["b"] not in table:
        return
    a, b = table[unit["a"]], table[unit["b"]]
    fine = unit["op"] not in SLOW
    pa = choose(trace_points(a), 1, functions=not fine)
    pb = choose(trace_points(b), 1, functions=not fine)
    explore(rec, a, b, list(itertools.product(pa, pb)), unit["share"], ("two", a.label, b.label), cold=False)


def run_opcode(unit, rec):
    """One preemption at every bytecode instruction (its first execution)."""
    table = op_table(unit["op"])
    if unit["a"] not in table or unit["b"] not in table:
        return
    a, b = table[unit["a"]], table[unit["b"]]
    pts = choose(trace_points(a, opcodes=True), 1)
    explore(rec, a, b, [(k,) for k in pts], unit["share"], ("opcode", a.label, b.label), cold=False, opcodes=True)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = (WAVELETS, dense)
