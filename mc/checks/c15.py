"""C15: an interrupted call leaves objects usable."""
import os
import pathlib
import sys

import torch
from torch.utils._python_dispatch import TorchDispatchMode

import ptwt

from .. import ref
from ..core import HarnessError
from ..ops import OPS
from ..util import F32, F64, dense, isolated, same, tmap
from . import c13
from .c13 import WAVELETS, fwd_call, inv_call, op_variants, plain, settings, snapshot

LEVEL = "fault_enumeration"
TECHNIQUE = (
    "exhaustive fault injection: an exception at every source line and every tensor operation of every call "
    "after every history, follow-up calls compared with new objects"
)
RULE = (
    "one case per (object history, call, fault point): every source line of the package that "
    "the call executes (an interrupt there) and every tensor operation it makes (a failing "
    "operation there), by its first and last executions (thorough: all of them). After each "
    "fault the arguments, earlier results and process-wide settings are compared with "
    "snapshots, and later calls on the same object with a new object; a case is nontrivial "
    "when the fault was raised inside the call"
)
ASSUMPTIONS = ["faults occur between source lines or at tensor operations",
               "results of new objects are right (decided by the other checks)"]

ROOT = str(pathlib.Path(ptwt.__file__).resolve().parent) + os.sep


class Fault(BaseException):
    """Stands for KeyboardInterrupt or MemoryError."""


class OpFault(RuntimeError):
    """Stands for a failing tensor operation."""


def caller():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(ROOT):
            return f"{f.f_code.co_filename[len(ROOT):]}:{f.f_lineno}"
        f = f.f_back
    return "?"


class Ops(TorchDispatchMode):
    """Counts tensor operations and fails at one of them."""

    def __init__(self, stop=None):
        super().__init__()
        self.stop, self.n, self.seq = stop, 0, []
        self.hit = False

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.stop is None:
            self.seq.append(caller() + ":" + str(func))
        elif self.n == self.stop:
            self.hit = True
            raise OpFault("the operation failed")
        return func(*args, **(kwargs or {}))


class Lines:
    def __init__(self, stop=None):
        self.stop, self.n, self.seq = stop, 0, []
        self.hit = False

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line":
                self.n += 1
                if self.stop is None:
                    self.seq.append(f"{frame.f_code.co_filename[len(ROOT):]}:{frame.f_lineno}")
                elif self.n == self.stop:
                    self.hit = True
                    raise Fault("interrupted")
            return local

        def outer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        sys.settrace(outer)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


KINDS = {"line": Lines, "op": Ops}


def choose(seq, tier, ends=True):
    if tier == "thorough":
        return list(range(1, len(seq) + 1))
    seen, last, res = {}, {}, []
    for i, where in enumerate(seq, 1):
        seen[where] = seen.get(where, 0) + 1
        last[where] = i
        if seen[where] <= 1:
            res.append(i)
    return sorted(set(res) | set(last.values() if ends else ()))


def interrupted(rec, kind, stop, fn, want, key):
    """Run fn with a fault; True if it was raised to the caller."""
    mode = KINDS[kind](stop)
    try:
        with mode:
            res = fn()
    except (Fault, OpFault):
        return True
    if not mode.hit:
        raise HarnessError(f"fault point {stop} of {key} was not reached")
    # the call handled the failure itself
    if want is not None:
        same(rec, plain(res), want, "result of a call that handled a failure", key)
    return False


# ------------------------------------------------------------ matrix objects
class MatrixCase:
    """kind of object, its inputs (label -> input) and a maker."""

    def __init__(self, name, direction, wave="db2", mode="zero", level=2):
        self.op = OPS[name]
        self.direction, self.wave, self.mode, self.level = direction, wave, mode, level
        nd = self.op.ndim
        small, big = {1: (16, 24), 2: ((8, 8), (8, 12)), 3: ((8, 8, 8), (8, 8, 12))}[nd]
        odd = {1: 13, 2: (9, 8), 3: (8, 9, 8)}[nd]
        tup = lambda s: (s,) if isinstance(s, int) else s  # noqa: E731
        self.shapes = {"X": (tup(small), F64), "Y": (tup(big), F64), "O": (tup(odd), F64), "X32": (tup(small), F32)}
        if nd == 3:
            self.level = 1
        if "ns" in name:
            self.level = 1

    def make(self):
        if self.direction == "fwd":
            return self.op.make_dec(self.wave, self.mode, self.level)
        return self.op.make_rec(self.wave)

    def input(self, label, new=0):
        shape, dt = self.shapes[label]
        x = dense(shape, dt, kind=3 + new)
        if self.direction == "fwd":
            return x
        c = self.op.make_dec(self.wave, self.mode, self.level)(x)
        return tmap(lambda t: t.contiguous(), c)


def matrix_units(tier):
    res = []
    for name in ("matrix1", "matrix1gs", "matrix2", "matrix2ns", "matrix3"):
        for d in ("fwd", "inv"):
            for prior in ([], ["X"], ["Y"], ["X32"], ["O"]):
                if tier == "quick" and name in ("matrix1gs", "matrix3") and prior in (["O"], ["X32"]):
                    continue
                for call in ("X", "O"):
                    if tier == "quick" and call == "O" and (name in ("matrix2ns", "matrix3", "matrix1gs") or len(prior) == 0):
                        continue
                    if tier == "quick" and call == "X" and prior in (["O"], ["X"]) and name != "matrix1":
                        continue
                    res.append(dict(kind="matrix", op=name, dir=d, prior=prior, call=call, level=None))
            if name == "matrix1" or tier == "thorough":
                res.append(dict(kind="matrix", op=name, dir=d, prior=["Y"], call="X", level="auto"))
    return res


def run_matrix(unit, rec):
    wave = "haar" if unit["op"] == "matrix2ns" and rec.tier == "quick" else "db2"
    case = MatrixCase(unit["op"], unit["dir"], wave)
    if unit["level"] == "auto":
        case.level = None
    labels = ["X", "Y", "O", "X32"]
    ins = {n: case.input(n) for n in labels}
    want = {n: plain(isolated(lambda n=n: plain(case.make()(ins[n])))) for n in labels}
    afters = [[unit["call"]], ["Y", unit["call"]], ["X32", unit["call"]], ["X", "O"]]
    prop = "sparse_fwt_operator" if unit["dir"] == "fwd" else "sparse_ifwt_operator"

    def operator(obj):
        try:
            op = getattr(obj, prop)
        except (ValueError, NotImplementedError, AttributeError):
            return None
        return op.to_dense()

    for kind in KINDS:
        obj = case.make()
        for p in unit["prior"]:
            obj(ins[p])
        probe = KINDS[kind]()
        with probe:
            obj(ins[unit["call"]])
        final = operator(obj)
        points = choose(probe.seq, rec.tier, ends=unit["op"] == "matrix1" and unit["prior"] == ["Y"])
        rec.count(f"{kind}_points", len(points))
        for j, k in enumerate(points):
            key = (unit["op"], unit["dir"], tuple(unit["prior"]), unit["call"], str(unit["level"]), kind, k,
                   probe.seq[k - 1])
            obj = case.make()
            kept = [obj(ins[p]) for p in unit["prior"]]
            op_before = operator(obj)
            keep = (ins, kept)
            before, st = snapshot(keep), settings()
            raised = interrupted(rec, kind, k, lambda: obj(ins[unit["call"]]), want[unit["call"]], key)
            rec.case(key, raised)
            if snapshot(keep) != before:
                rec.fail("an argument or an earlier result changed", key)
            if settings() != st:
                rec.fail("process-wide settings changed", key)
            op_after = operator(obj)
            if op_after is not None:
                good = any(o is not None and o.shape == op_after.shape and o.dtype == op_after.dtype
                           and torch.allclose(o, op_after, atol=1e-5)
                           for o in (op_before, final))
                if not good:
                    rec.fail("the operator property shows neither the last nor the interrupted call", key)
            if rec.tier == "thorough":
                seqs = afters
            else:
                # the same call at once, or the earlier one first
                first = unit["prior"][:1] or ["Y"]
                seqs = [[unit["call"]] + afters[1 + j % 3][:1]]
                if len(unit["prior"]):
                    seqs.append(first + [unit["call"]])
            for after in seqs:
                if after is not seqs[0]:
                    obj = case.make()
                    for p in unit["prior"]:
                        obj(ins[p])
                    interrupted(rec, kind, k, lambda: obj(ins[unit["call"]]), want[unit["call"]], key)
                for a in after:
                    same(rec, plain(obj(ins[a])), want[a], f"call {a} after an interrupted call", (key, tuple(after)),
                         rtol=1e-6 if a == "X32" else 1e-10)
                    rec.transitions += 1


# ------------------------------------------------------------------- packets
def tree_of(op, data, level, wave):
    return op.tree(data, wave, op.modes[0] if op.boundary else "symmetric", level)


def all_paths(op, level):
    return [p for i in range(level + 1) for p in ref.product_paths(i, op.letters)]


def packet_units(tier):
    res = []
    for name in ("packet1", "packet1b", "packet2", "packet2s", "packet2b", "packet2bs"):
        for action in ("leaf", "initialize", "reconstruct", "reconstruct_set", "reconstruct_holes", "transform",
                       "transform_filled"):
            res.append(dict(kind="packet", op=name, action=action))
    return res


def run_packet(unit, rec):
    op = OPS[unit["op"]]
    quick = rec.tier == "quick"
    level = 2 if op.ndim == 1 else (1 if quick and op.boundary else 2)
    wave = "haar" if op.ndim == 2 and op.boundary else "db2"
    shape = (22,) if op.ndim == 1 else ((8, 10) if level == 1 else (8, 12))
    data = dense(shape, F64, 1)
    # a new input with another number of levels
    data2 = dense((40,) if op.ndim == 1 else ((4, 4) if level == 1 else (8, 8)), F64, 2)
    level2 = 3 if op.ndim == 1 else (2 if level == 1 else (3 if wave == "haar" else 1))
    paths = all_paths(op, level)
    action = unit["action"]

    def build():
        """The tree before the call, the call, the expected nodes and the result."""
        wp = tree_of(op, data, level, wave)
        if action in ("reconstruct", "reconstruct_set", "reconstruct_holes", "transform_filled"):
            for p in paths:
                wp[p]
        if action == "reconstruct_set":
            for i, p in enumerate(paths):
                if len(p) == level and i % 2:
                    wp[p] = dense(tuple(wp[p].shape), F64, 5 + i)
        if action == "reconstruct_holes" and level > 1:
            for p in paths:
                if len(p) == 1:
                    del wp[p]
        if action == "leaf":
            return wp, lambda: wp[paths[-1]]
        if action == "initialize":
            return wp, lambda: wp.initialize(paths)
        if action.startswith("reconstruct"):
            return wp, lambda: wp.reconstruct()
        return wp, lambda: wp.transform(data2, level2 if action == "transform_filled" else None)

    def answers(wp, lev=level):
        return {p: wp[p].detach().clone() for p in all_paths(op, lev)}

    def before():
        return answers(build()[0])

    def after():
        wp, call = build()
        call()
        return answers(wp, level2 if action.startswith("transform") else level)

    want_before = isolated(before)
    want_after = isolated(after)

    for kind in KINDS:
        wp, call = build()
        probe = KINDS[kind]()
        with probe:
            call()
        points = choose(probe.seq, rec.tier)
        rec.count(f"{kind}_points", len(points))
        for k in points:
            key = (unit["op"], action, kind, k, probe.seq[k - 1])
            wp, call = build()
            kept = [data, data2] + [wp[p] for p in wp.keys()]
            snap, st = snapshot(kept), settings()
            raised = interrupted(rec, kind, k, call, None, key)
            rec.case(key, raised)
            if snapshot(kept) != snap:
                rec.fail("a tensor of the tree changed", key)
            if settings() != st:
                rec.fail("process-wide settings changed", key)
            if raised:
                # a fault behind the last effect of the call may leave it complete
                complete = same_tree(wp, want_after if not action.startswith("transform") else None,
                                     action, level, level2, data2)
                if not complete:
                    if wp.maxlevel != level:
                        rec.fail(f"maxlevel is {wp.maxlevel} instead of {level} after an interrupted call", key)
                    extra = set(wp.keys()) - set(paths)
                    if extra:
                        rec.fail(f"unknown nodes {extra}", key)
                if not complete and action.startswith("reconstruct"):
                    for p in list(wp.keys()):
                        same(rec, wp[p].detach(), want_before[p], f"node {p!r} after an interrupted call", key, rtol=1e-12)
                # repeat the call, then look at all nodes
                if not complete and (action in ("leaf", "initialize") or k % 2):
                    same(rec, answers(wp), want_before, "nodes after an interrupted call", key, rtol=1e-12)
                    rec.transitions += 1
                wp.initialize(paths if action == "reconstruct_holes" else [])
                call()
            same(rec, answers(wp, level2 if action.startswith("transform") else level), want_after,
                 "nodes after the call was repeated", key, rtol=1e-12)
            rec.transitions += 1


def same_tree(wp, nodes, action, level, level2, data2):
    """Is the interrupted call complete?"""
    if action.startswith("transform"):
        return wp.maxlevel == level2 and torch.equal(wp[""], data2)
    if action.startswith("reconstruct"):
        return wp.maxlevel == level and set(wp.keys()) == set(nodes) and all(
            v.shape == nodes[k].shape and torch.allclose(v, nodes[k], atol=1e-9) for k, v in ((p, wp[p]) for p in wp.keys()))
    return False


# ---------------------------------------------------------------- functions
def func_units():
    return [dict(kind="func", op=n) for n in c13.NAMES] + [dict(kind="misc", part=i) for i in range(4)]


def fault_call(rec, call, kind_label):
    want = isolated(lambda: (lambda fa: plain(fa[0](*fa[1])))(call.build()))
    for kind in KINDS:
        fn, args = call.build()
        probe = KINDS[kind]()
        with probe:
            fn(*args)
        seen, points = set(), []
        for i, where in enumerate(probe.seq, 1):
            if where not in seen or rec.tier == "thorough":
                seen.add(where)
                points.append(i)
        for k in points:
            key = (kind_label, call.label, kind, k, probe.seq[k - 1])
            fn, args = call.build()
            before, st = snapshot(args), settings()
            raised = interrupted(rec, kind, k, lambda: fn(*args), want, key)
            rec.case(key, raised)
            if snapshot(args) != before:
                rec.fail("an argument changed", key)
            if settings() != st:
                rec.fail("process-wide settings changed", key)
            if k % 3 == 0 or rec.tier == "thorough":
                same(rec, plain(fn(*args)), want, "the same call after an interrupted one", key)
                rec.transitions += 1
        fn, args = call.build()
        same(rec, plain(fn(*args)), want, "the same call after interrupted ones", (kind_label, call.label))


def run_func(unit, rec):
    op = OPS[unit["op"]]
    var = [v for v in op_variants(op, True) if v[0] != "haar" or unit["op"] == "matrix2nsgs"][0]
    if rec.tier == "quick" and unit["op"] in ("matrix2ns", "packet2b"):
        var = ("haar",) + var[1:]
    fault_call(rec, fwd_call(op, var), "func")
    if op.has_inverse:
        fault_call(rec, inv_call(op, var), "func")


def run_misc(unit, rec):
    calls = c13.misc_calls()
    if rec.tier == "quick":
        skip = {f"boundary_{s} {w} {d}" for s in "as" for w in ("db2rev", "db2obj", "haar") for d in (F32, F64)}
        skip |= {"boundary_a2 t", "cwt cmor2.5-1.0", "cwt other scales", "cwt other data", "product filter 2"}
        calls = [c for c in calls if c.label[1] not in skip]
    for c in calls[unit["part"]::4]:
        fault_call(rec, c, "misc")


def units(tier, seed):
    return matrix_units(tier) + packet_units(tier) + func_units()


def cost(unit):
    base = {"matrix": 4, "packet": 3, "func": 2, "misc": 6}[unit["kind"]]
    return base * (4 if unit.get("op") in ("matrix2", "matrix2ns", "matrix3", "packet2b") else 1)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = WAVELETS
