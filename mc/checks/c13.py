"""C13: calls are pure."""
import itertools

import numpy as np
import pywt
import torch

import ptwt
import ptwt.sparse_math as sm
from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from .. import ref
from ..core import HarnessError
from ..ops import OPS
from ..util import F32, F64, dense, isolated, leaves, same, tmap, to_np

LEVEL = "model_checking"
FRESH = True
RULE = (
    "states: distinct (previous call, call) situations; transitions: calls made in all "
    "histories of the exploration: every ordered pair of calls of an alphabet that covers "
    "every entry point with wavelets of equal name or length, several dtypes, modes, shapes, "
    "levels and argument containers, with new and with shared argument objects; all "
    "triples within an entry point; every batch layout and sequence type; arguments changed in "
    "place between two calls; results overwritten by the caller between two calls. After each "
    "call its result is compared with the one of a process that made no other call, and all "
    "arguments, earlier results and process-wide settings with bitwise snapshots"
)
ASSUMPTIONS = ["single calls in a new process return the right values (decided by the other checks)"]


class Custom:
    """An object that follows the Wavelet protocol."""

    def __init__(self, bank, name="custom"):
        self.name = name
        self.bank = [list(f) for f in bank]

    @property
    def filter_bank(self):
        return tuple(list(f) for f in self.bank)

    dec_lo = property(lambda self: self.bank[0])
    dec_hi = property(lambda self: self.bank[1])
    rec_lo = property(lambda self: self.bank[2])
    rec_hi = property(lambda self: self.bank[3])
    dec_len = property(lambda self: len(self.bank[0]))
    rec_len = property(lambda self: len(self.bank[2]))

    def __len__(self):
        return len(self.bank[0])


class Stored(Custom):
    """Gives its own lists away instead of copies."""

    filter_bank = property(lambda self: tuple(self.bank))


def continuous(name, **attributes):
    """A continuous wavelet whose attributes were set after its creation."""
    w = pywt.ContinuousWavelet(name)
    for k, v in attributes.items():
        setattr(w, k, v)
    return w


# wavelets of equal names
CONTINUOUS = {
    "cmor 1": lambda: continuous("cmor", bandwidth_frequency=1.5, center_frequency=1.0),
    "cmor 2": lambda: continuous("cmor", bandwidth_frequency=1.5, center_frequency=0.5),
    "cmor 3": lambda: continuous("cmor", bandwidth_frequency=1.0, center_frequency=1.0),
    "cmor 4": lambda: continuous("cmor", bandwidth_frequency=1.5, center_frequency=1.0, upper_bound=4.0),
    "cmor 5": lambda: continuous("cmor", bandwidth_frequency=1.5, center_frequency=1.0, lower_bound=-4.0),
    "mexh 1": lambda: continuous("mexh", upper_bound=5.0),
    "mexh 2": lambda: continuous("mexh"),
    "fbsp 1": lambda: continuous("fbsp", fbsp_order=1, bandwidth_frequency=1.5, center_frequency=1.0),
    "fbsp 2": lambda: continuous("fbsp", fbsp_order=2, bandwidth_frequency=1.5, center_frequency=1.0),
}


def reverse(name):
    """The time-reversed wavelet, orthogonal as well."""
    return [f[::-1] for f in ref.bank(name)]


WAVELETS = {
    "haar": lambda: "haar",
    "db2": lambda: "db2",
    "db2obj": lambda: pywt.Wavelet("db2"),
    "db2rev": lambda: Stored(reverse("db2"), "db2"),
    "pywtrev": lambda: pywt.Wavelet("db2", filter_bank=reverse("db2")),
    "db2tuple": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F64) for f in ref.bank("db2"))),
    "revtuple32": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F32) for f in reverse("db2"))),
    "negated": lambda: Custom([[-v for v in f] for f in ref.bank("db2")], "db2"),
}

SHAPES = {1: [(16,), (2, 16), (13,)], 2: [(8, 8), (9, 8)], 3: [(8, 8, 8), (8, 9, 8)]}
NAMES = [n for n in OPS if n not in ("cwt", "cwtreal", "cwtdisc")]


def op_variants(op, short=False):
    """Parameter sets of an entry point."""
    nd = op.ndim
    sh = SHAPES[nd]
    level = 1 if op.ndim == 3 or op.name in ("matrix2ns", "matrix2nsgs", "packet2", "packet2s", "packet2b", "packet2bs") else 2
    modes = [m for m in op.modes]
    m0 = modes[0]
    m1 = modes[-1]
    wave = ["haar", "db2", "db2rev", "db2obj", "pywtrev", "db2tuple", "revtuple32", "negated"]
    if short:
        wave = ["haar", "db2", "db2rev"]
    if op.name in ("matrix2nsgs",):
        wave = ["haar"]
    elif op.name in ("matrix1gs", "matrix2ns", "packet2b"):
        wave = ["haar", "db2", "db2rev"]
    res = []
    for w in wave:
        if op.name == "swt" and w == "haar":
            pass
        shape = (16,) if op.name == "swt" else sh[0]
        res.append((w, m0, level, shape, F64))
    shape = (16,) if op.name == "swt" else sh[0]
    w = "haar" if op.name == "matrix2nsgs" else "db2"
    res.append((w, m0, level, shape, F32))
    if m1 != m0:
        res.append((w, m1, level, shape, F64))
    if not short:
        res.append((w, m0, 1, (2, 16) if op.name == "swt" else sh[-1], F64))
        if nd == 1 and op.name != "swt":
            res.append((w, m0, level, sh[1], F64))
    # the same parameters with other data
    res.append((w, m0, level, shape, "other"))
    return res


class Call:
    """A call that builds its arguments anew each time."""

    def __init__(self, label, build):
        self.label, self.build = label, build
        self.want = None


def fwd_call(op, var):
    w, mode, level, shape, dt = var

    def build():
        x = dense(shape, F64 if dt == "other" else dt, kind=7 if dt == "other" else 3)
        wav = WAVELETS[w]()
        return (lambda x, wav: op.fwd(x, wav, mode, level)), (x, wav)

    return Call((op.name, "fwd") + var_label(var), build)


def var_label(var):
    return tuple(str(v) for v in var)


def inv_call(op, var, container=None):
    """Inverse of arbitrary coefficients; container: type of the outer sequence."""
    w, mode, level, shape, dt = var
    dtype = F64 if dt == "other" else dt
    shapes = isolated(lambda: tmap(lambda t: torch.tensor(tuple(t.shape)),
                                   op.fwd(dense(shape, dtype), WAVELETS[w](), mode, level)))

    def build():
        cnt = itertools.count(1)
        c = tmap(lambda t: dense(tuple(int(s) for s in t), dtype, kind=next(cnt) + (5 if dt == "other" else 0)), shapes)
        wav = WAVELETS[w]()
        if container is not None:
            c = container(c)
        return (lambda c, wav: op.inv(c, wav, mode)), (c, wav)

    return Call((op.name, "inv") + var_label(var) + ((container.__name__,) if container else ()), build)


def layout_calls(op):
    """Batch layouts and sequence types: the stages that fold axes depend on them."""
    shape = (16,) if op.name == "swt" else SHAPES[op.ndim][0]
    level = 1 if op.ndim == 3 or op.name.startswith(("matrix2ns", "packet2")) else 2
    w = "haar" if op.name == "matrix2nsgs" else "db2"
    res = []
    for lead in ((), (1,), (2,), (2, 3), (1, 2, 1)):
        var = (w, op.modes[0], level, lead + shape, F64)
        res.append(fwd_call(op, var))
        if op.has_inverse:
            res.append(inv_call(op, var))
            if not op.name.startswith("packet"):
                res.append(inv_call(op, var, tuple))
                if op.ndim == 1:
                    res.append(inv_call(op, var, list))
    return res


def misc_calls():
    res = []

    def add(label, fn, *factories):
        res.append(Call(("misc", label), lambda: (fn, tuple(f() for f in factories))))

    scales = lambda k: (lambda: np.array([1.0, 2.5, 4.0 + k]))  # noqa: E731
    x64 = lambda: dense((2, 16), F64, kind=1)  # noqa: E731
    y64 = lambda: dense((2, 16), F64, kind=2)  # noqa: E731
    x32 = lambda: dense((2, 16), F32, kind=1)  # noqa: E731
    for name in ("cmor1.5-1.0", "cmor2.5-1.0", "mexh", "gaus2", "shan1.5-1.0", "morl"):
        add(f"cwt {name}", lambda x, s, name=name: ptwt.cwt(x, s, name), x64, scales(0))
    add("cwt other scales", lambda x, s: ptwt.cwt(x, s, "mexh"), x64, scales(1))
    add("cwt other data", lambda x, s: ptwt.cwt(x, s, "mexh"), y64, scales(0))
    add("cwt f32", lambda x, s: ptwt.cwt(x, s, "mexh"), x32, scales(0))
    add("cwt list", lambda x, s: ptwt.cwt(x, s, "mexh"), x64, lambda: [1.0, 2.5, 4.0])
    add("cwt period", lambda x, s: ptwt.cwt(x, s, "mexh", sampling_period=0.5), x64, scales(0))
    add("cwt object", lambda x, s, w: ptwt.cwt(x, s, w), x64, scales(0), lambda: pywt.ContinuousWavelet("gaus3"))
    add("cwt discrete", lambda x, s, w: ptwt.cwt(x, s, w), x64, scales(0), lambda: pywt.Wavelet("db2"))
    for w in ("db2", "db2rev", "db2obj", "haar"):
        for dt in (F64, F32):
            add(f"boundary_a {w} {dt}", lambda wav, dt=dt: construct_boundary_a(wav, 8, dtype=dt), WAVELETS[w])
            add(f"boundary_s {w} {dt}", lambda wav, dt=dt: construct_boundary_s(wav, 8, dtype=dt), WAVELETS[w])
    add("boundary_a 12", lambda wav: construct_boundary_a(wav, 12), WAVELETS["db2"])
    add("boundary_a gs", lambda wav: construct_boundary_a(wav, 8, orthogonalization="gramschmidt"), WAVELETS["db2"])
    add("boundary_a2", lambda wav: construct_boundary_a2(wav, 4, 6, "cpu"), WAVELETS["db2"])
    add("boundary_s2", lambda wav: construct_boundary_s2(wav, 4, 6, "cpu"), WAVELETS["db2"])
    add("boundary_a2 t", lambda wav: construct_boundary_a2(wav, 6, 4, "cpu"), WAVELETS["db2"])
    mat = lambda s, k: (lambda: dense(s, F64, k).to_sparse())  # noqa: E731
    add("kron", lambda a, b: sm.sparse_kron(a, b), mat((2, 3), 1), mat((3, 2), 2))
    add("cat_eye", lambda a: sm.cat_sparse_identity_matrix(a, 6), mat((3, 3), 1))
    add("replace", lambda a, r: sm.sparse_replace_row(a, 1, r), lambda: mat((3, 3), 1)().coalesce(), lambda: mat((1, 3), 2)().coalesce())
    add("diag", lambda d: sm.sparse_diag(d, 1, 4, 5), lambda: dense((4,), F64))
    add("batch_mm", lambda a, b: sm.batch_mm(a, b), mat((3, 4), 1), lambda: dense((2, 4, 5), F64))
    add("conv2d", lambda f: sm.construct_conv2d_matrix(f, 4, 5, mode="same"), lambda: dense((3, 3), F64))
    add("conv1d", lambda f: sm.construct_conv_matrix(f, 6, mode="valid"), lambda: dense((3,), F64))
    add("strided2", lambda f: sm.construct_strided_conv2d_matrix(f, 4, 6, mode="sameshift"), lambda: dense((4, 4), F64))

    def filt(k):
        return lambda: dense((4,), F64, kind=k)

    def losses(a, b, c, d):
        p = ProductFilter(a, b, c, d)
        return [p.product_filter_loss(), p.alias_cancellation_loss()[0], p.perfect_reconstruction_loss()[0],
                p.wavelet_loss()]

    def soft(a, b, c, d):
        p = SoftOrthogonalWavelet(a, b, c, d)
        return [p.wavelet_loss(), p.rec_lo_orthogonality_loss(), p.filt_bank_orthogonality_loss()]

    for level in (0, 1, 2, 3):
        for order in ("freq", "natural"):
            add(f"get_level {level} {order}", lambda l, o: ptwt.WaveletPacket.get_level(l, o), lambda level=level: level, lambda order=order: order)
        add(f"natural {level}", lambda l: ptwt.WaveletPacket2D.get_natural_order(l), lambda level=level: level)
        if level:
            add(f"freq {level}", lambda l: ptwt.WaveletPacket2D.get_freq_order(l), lambda level=level: level)
    add("filter bank", lambda a, b, c, d: list(ProductFilter(a, b, c, d).filter_bank), filt(1), filt(2), filt(3), filt(4))
    add("product filter", losses, filt(1), filt(2), filt(3), filt(4))
    add("product filter 2", losses, filt(2), filt(2), filt(3), filt(4))
    add("soft orthogonal", soft, filt(1), filt(2), filt(3), filt(4))
    return res


# ---------------------------------------------------------------- snapshots
def snapshot(obj):
    """Immutable picture of an argument or result."""
    if isinstance(obj, torch.Tensor):
        t = obj.detach()
        if t.layout != torch.strided:
            c = t.clone()
            return ("sparse", id(obj), tuple(t.shape), str(t.dtype), to_np(c.to_dense()).tobytes(), t.is_coalesced())
        return ("T", id(obj), tuple(t.shape), tuple(t.stride()), str(t.dtype), obj.requires_grad,
                None if obj.grad is None else to_np(obj.grad).tobytes(), to_np(t).tobytes())
    if isinstance(obj, np.ndarray):
        return ("A", id(obj), obj.shape, str(obj.dtype), obj.tobytes())
    if isinstance(obj, dict):
        return ("D", id(obj)) + tuple((k, snapshot(v)) for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, id(obj)) + tuple(snapshot(v) for v in obj)
    if isinstance(obj, (pywt.Wavelet, Custom)):
        return ("W", id(obj), obj.name, tuple(tuple(float(v) for v in f) for f in obj.filter_bank))
    if isinstance(obj, pywt.ContinuousWavelet):
        return ("C", id(obj), obj.name, obj.lower_bound, obj.upper_bound, obj.center_frequency, obj.bandwidth_frequency,
                obj.fbsp_order)
    if isinstance(obj, (str, int, float)) or obj is None:
        return obj
    raise HarnessError(f"snapshot of {type(obj)}")


def settings():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(),
            to_np(torch.get_rng_state()).tobytes(), torch.are_deterministic_algorithms_enabled(),
            str(np.geterr()), torch.get_num_threads(), hash(np.random.get_state()[1].tobytes()))


def plain(res):
    """Result without graph, as a structure of tensors."""
    return tmap(lambda t: t.detach(), norm(res))


def norm(res):
    if isinstance(res, np.ndarray):
        return torch.from_numpy(np.ascontiguousarray(res))
    if isinstance(res, torch.Tensor) and res.layout != torch.strided:
        return res.to_dense()
    if isinstance(res, str):
        return torch.tensor([ord(c) for c in res] + [-1])
    if isinstance(res, float):
        return torch.tensor(res, dtype=F64)
    if isinstance(res, dict):
        return {k: norm(v) for k, v in res.items()}
    if isinstance(res, tuple) and hasattr(res, "_fields"):
        return type(res)(*(norm(v) for v in res))
    if isinstance(res, (list, tuple)):
        return type(res)(norm(v) for v in res)
    return res


def expect(call):
    if call.want is None:
        def alone():
            fn, args = call.build()
            return plain(fn(*args))

        call.want = isolated(alone)
    return call.want


def perform(rec, call, key, args=None):
    """Make the call, compare result and arguments; returns what to keep."""
    fn, new = call.build()
    if args is None:
        args = new
    before = snapshot(args)
    st = settings()
    res = fn(*args)
    rec.transitions += 1
    if snapshot(args) != before:
        rec.fail("the call changed its arguments", key)
    if settings() != st:
        rec.fail("the call changed process-wide settings", key)
    same(rec, plain(res), call.want, "result", key)
    return args, before, res, snapshot(norm_keep(res))


def norm_keep(res):
    return res


def check_kept(rec, kept, key):
    for args, asnap, res, rsnap in kept:
        if snapshot(args) != asnap:
            rec.fail("a later call changed the arguments of an earlier one", key)
        if snapshot(res) != rsnap:
            rec.fail("a later call changed the result of an earlier one", key)


# -------------------------------------------------------------------- units
def op_calls(name, short=False):
    op = OPS[name]
    res = []
    for var in op_variants(op, short):
        res.append(fwd_call(op, var))
    if op.has_inverse:
        for var in op_variants(op, True):
            res.append(inv_call(op, var))
    return res


GROUPS = NAMES + ["misc"]


def calls_of(group, short=False):
    return misc_calls() if group == "misc" else op_calls(group, short)


def units(tier, seed):
    res = []
    for g in GROUPS:
        for shared in (False, True):
            res.append(dict(kind="own", group=g, shared=shared))
        res.append(dict(kind="triples", group=g))
        for h in GROUPS:
            if g < h:
                res.append(dict(kind="cross", a=g, b=h))
    for g in NAMES:
        res.append(dict(kind="inplace", group=g))
        res.append(dict(kind="layouts", group=g))
    for g in GROUPS:
        res.append(dict(kind="spoil", group=g))
    res.append(dict(kind="continuous"))
    return res


def cost(unit):
    slow = {"matrix2nsgs": 6, "matrix2ns": 4, "packet2b": 4, "matrix3": 3, "misc": 6}
    k = {"own": 8, "triples": 20, "cross": 2, "inplace": 1, "layouts": 3, "spoil": 3, "continuous": 3}[unit["kind"]]
    return k * sum(slow.get(unit.get(n), 1) for n in ("group", "a", "b"))


def run_own(unit, rec):
    """Every ordered pair of calls of an entry point."""
    calls = calls_of(unit["group"])
    for c in calls:
        expect(c)
    keep_args = {}
    first = []
    for i, j in itertools.product(range(len(calls)), repeat=2):
        kept = []
        for k in (i, j):
            c = calls[k]
            args = None
            if unit["shared"]:
                if k not in keep_args:
                    keep_args[k] = c.build()[1]
                args = keep_args[k]
            key = ("pair", unit["shared"], calls[i].label, calls[j].label, "second" if len(kept) else "first")
            kept.append(perform(rec, c, key, args))
        rec.case(key)
        rec.state(("pair", calls[i].label, calls[j].label))
        check_kept(rec, kept, key)
        rec.traces += 1
        if len(first) < 40:
            first.append(kept[0])
    check_kept(rec, first, ("all calls of", unit["group"]))


def run_cross(unit, rec):
    """Every ordered pair of calls of two entry points (reduced variants)."""
    a, b = calls_of(unit["a"], True), calls_of(unit["b"], True)
    quick = rec.tier == "quick"
    if quick:
        # different wavelet, dtype, mode and direction each once
        a, b = thin(a), thin(b)
    for c in a + b:
        expect(c)
    for x, y in itertools.chain(itertools.product(a, b), itertools.product(b, a)):
        kept = []
        for c in (x, y):
            key = ("cross", x.label, y.label)
            kept.append(perform(rec, c, key))
        rec.case(key)
        rec.state(("pair", x.label, y.label))
        check_kept(rec, kept, key)
        rec.traces += 1


def thin(calls):
    if len(calls) <= 6:
        return calls
    step = len(calls) / 6
    return [calls[int(i * step)] for i in range(6)]


def run_triples(unit, rec):
    calls = calls_of(unit["group"], True)
    if rec.tier == "quick":
        top = 5 if unit["group"] in ("matrix2ns", "matrix2nsgs", "packet2b", "matrix3", "misc", "packet2bs") else 7
        if len(calls) > top:
            step = len(calls) / top
            calls = [calls[int(i * step)] for i in range(top)]
    for c in calls:
        expect(c)
    for seq in itertools.product(range(len(calls)), repeat=3):
        kept = []
        key = ("triple",) + tuple(calls[k].label for k in seq)
        for k in seq:
            kept.append(perform(rec, calls[k], key))
        rec.case(key)
        rec.state(key)
        check_kept(rec, kept, key)
        rec.traces += 1


def run_layouts(unit, rec):
    """Every batch layout and sequence type, twice with the same arguments."""
    for call in layout_calls(OPS[unit["group"]]):
        expect(call)
        key = ("layout", call.label)
        kept = [perform(rec, call, key)]
        kept.append(perform(rec, call, key, kept[0][0]))
        check_kept(rec, kept, key)
        rec.case(key)
        rec.state(key)
        rec.traces += 1


def spoil(obj, done):
    """Overwrite everything a caller may overwrite in a result."""
    if id(obj) in done:
        return
    done.add(id(obj))
    if isinstance(obj, torch.Tensor):
        with torch.no_grad():
            if obj.layout != torch.strided:
                obj._values().mul_(3).add_(1)
            elif obj.numel() and not any(st == 0 and n > 1 for n, st in zip(obj.shape, obj.stride())):
                obj.mul_(3).add_(1)
    elif isinstance(obj, np.ndarray):
        if obj.flags.writeable:
            obj[...] = obj * 3 + 1
    elif isinstance(obj, dict):
        for v in obj.values():
            spoil(v, done)
        obj.clear()
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            spoil(v, done)
        if isinstance(obj, list):
            obj.reverse()
            del obj[:1]


def run_spoil(unit, rec):
    """A caller that overwrites a result, then the same call with new arguments."""
    calls = calls_of(unit["group"], unit["group"] != "misc")
    for c in calls:
        expect(c)
    for first in calls:
        for second in [first] + ([] if unit["group"] == "misc" else calls[:3]):
            key = ("spoil", first.label, second.label)
            fn, args = first.build()
            spoil(fn(*args), set())
            perform(rec, second, key)
            rec.transitions += 1
            rec.case(key)
            rec.state(key)
            rec.traces += 1


def run_inplace(unit, rec):
    """The same argument objects with new values."""
    op = OPS[unit["group"]]
    for var in op_variants(op, True)[:4]:
        w, mode, level, shape, dt = var
        dtype = F64 if dt == "other" else dt
        directions = ["fwd"] + (["inv"] if op.has_inverse else [])
        for direction in directions:
            call = fwd_call(op, var) if direction == "fwd" else inv_call(op, var)
            expect(call)

            def changed(call=call, kind=11):
                fn, args = call.build()
                change(args[0], kind)
                return plain(fn(*args))

            want2 = isolated(changed)
            key = ("inplace", op.name, direction) + var_label(var)
            rec.case(key)
            fn, args = call.build()
            same(rec, plain(fn(*args)), call.want, "result", key)
            change(args[0], 11)
            same(rec, plain(fn(*args)), want2, "result after the data changed in place", key)
            rec.transitions += 2
            # a mutable wavelet object whose filters change
            if op.name.startswith("matrix") or "b" in op.name.replace("packet2bs", "b")[6:]:
                pass
            wav = Custom(ref.bank("db2"), "mutable")
            if op.name == "matrix2nsgs":
                continue
            data = args[0]
            if w != "haar":
                def with_bank(bank, data=data, op=op, mode=mode, level=level, direction=direction):
                    wv = Custom(bank, "mutable")
                    return plain(op.fwd(data, wv, mode, level) if direction == "fwd" else op.inv(data, wv, mode))

                for bank in (ref.bank("db2"), reverse("db2"), ref.bank("db2")):
                    wav.bank = [list(f) for f in bank]
                    want = isolated(lambda bank=bank: with_bank(bank))
                    got = plain(op.fwd(data, wav, mode, level) if direction == "fwd" else op.inv(data, wav, mode))
                    same(rec, got, want, "result after the wavelet object changed", key)
                    rec.transitions += 1
            rec.state(key)
            rec.traces += 1


def run_continuous(unit, rec):
    """Pairs of continuous wavelets of equal name, as two objects and as one that changes in between."""
    x = dense((2, 24), F64, kind=1)
    scales = np.array([1.0, 2.5, 4.0])

    def go(w, precision):
        return plain(ptwt.cwt(x, scales, w, precision=precision))

    for precision in (12, 8):
        want = {k: isolated(lambda k=k: go(CONTINUOUS[k](), precision)) for k in CONTINUOUS}
        for i, j in itertools.product(CONTINUOUS, repeat=2):
            key = ("continuous", i, j, precision)
            for k in (i, j):
                same(rec, go(CONTINUOUS[k](), precision), want[k], f"cwt with {k} after {i}", key)
            if i[:4] == j[:4]:
                obj, other = CONTINUOUS[i](), CONTINUOUS[j]()
                same(rec, go(obj, precision), want[i], "cwt", key)
                for name in ("bandwidth_frequency", "center_frequency", "fbsp_order", "lower_bound", "upper_bound"):
                    if getattr(other, name) is not None:
                        setattr(obj, name, getattr(other, name))
                before = snapshot(obj)
                same(rec, go(obj, precision), want[j], "cwt with a wavelet whose attributes changed", key)
                if snapshot(obj) != before:
                    rec.fail("cwt changed the wavelet object", key)
            rec.case(key)
            rec.state(key)
            rec.transitions += 2
            rec.traces += 1


def change(data, kind):
    for i, (_, t) in enumerate(leaves(data)):
        with torch.no_grad():
            t.copy_(dense(tuple(t.shape), t.dtype, kind=kind + i))


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
