"""C20: all ways to specify a wavelet give the same transform."""
import itertools
import warnings

import numpy as np
import pywt
import torch

import ptwt
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from .. import ref
from ..ops import OPS
from ..util import F32, F64, dense, isolated, leaves, same, structure, tmap
from .c13 import Custom

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of wavelet representations, of ordered pairs of them and of "
             "parameter changes, against calls in new processes; traced functions against plain calls")
RULE = (
    "one case per compared call: (entry point, direction, wavelet, representation, level, data dtype), "
    "ordered pairs of representations and wavelets of equal name or length in one process, each "
    "change of a representation's filters between two calls, and traced against plain calls; "
    "a case is nontrivial when the two results were compared"
)
ASSUMPTIONS = ["the transform of a wavelet given by name is right (decided by C01 to C12)"]
FRESH = True

NAMES = [n for n in OPS if not n.startswith("cwt")]


class Bank(Custom):
    """Protocol object with filters of any type."""

    def __init__(self, bank, kind, name="bank"):
        self.name, self.bank, self.kind = name, bank, kind

    @property
    def filter_bank(self):
        if self.kind == "lists":
            return [list(f) for f in self.bank]
        if self.kind == "tuples":
            return tuple(tuple(f) for f in self.bank)
        if self.kind == "arrays":
            return tuple(np.array(f) for f in self.bank)
        return tuple(torch.tensor(f, dtype=F64) for f in self.bank)


class Module(torch.nn.Module):
    """A user's module that follows the protocol."""

    def __init__(self, bank):
        super().__init__()
        self.name = "module"
        self.taps = torch.nn.ParameterList([torch.nn.Parameter(torch.tensor(f, dtype=F64)) for f in bank])

    filter_bank = property(lambda self: tuple(self.taps))
    dec_lo = property(lambda self: self.taps[0])
    dec_hi = property(lambda self: self.taps[1])
    rec_lo = property(lambda self: self.taps[2])
    rec_hi = property(lambda self: self.taps[3])
    dec_len = property(lambda self: len(self.taps[0]))
    rec_len = property(lambda self: len(self.taps[2]))

    def __len__(self):
        return len(self.taps[0])


def tensors(bank, dtype, grad=False):
    return [torch.tensor(f, dtype=dtype, requires_grad=grad) for f in bank]


def views(bank):
    """Filters that are strided views."""
    return [torch.stack([torch.tensor(f, dtype=F64), torch.ones(len(f), dtype=F64)], 1)[:, 0] for f in bank]


REPS = {
    "object": lambda w, b: pywt.Wavelet(w) if isinstance(w, str) else pywt.Wavelet("own", filter_bank=b),
    "renamed": lambda w, b: pywt.Wavelet("haar2", filter_bank=b),
    "tuple64": lambda w, b: ptwt.WaveletTensorTuple(*tensors(b, F64)),
    "tuple32": lambda w, b: ptwt.WaveletTensorTuple(*tensors(b, F32)),
    "grad64": lambda w, b: ptwt.WaveletTensorTuple(*tensors(b, F64, True)),
    "views": lambda w, b: ptwt.WaveletTensorTuple(*views(b)),
    "product": lambda w, b: ProductFilter(*tensors(b, F64)),
    "soft32": lambda w, b: SoftOrthogonalWavelet(*tensors(b, F32)),
    "lists": lambda w, b: Bank(b, "lists"),
    "tuples": lambda w, b: Bank(b, "tuples", "haar"),
    "arrays": lambda w, b: Bank(b, "arrays", "db2"),
    "tensors": lambda w, b: Bank(b, "tensors"),
    "module": lambda w, b: Module(b),
}
SINGLE = ("tuple32", "soft32")


def accepts(op, rep, level):
    """The learnable classes have no dec_len, which matrices and trees without a level need."""
    if rep in ("product", "soft32"):
        if op.name.startswith("matrix") or getattr(op, "boundary", False):
            return False
        if op.name.startswith("packet") and level is None:
            return False
    return True


def detached(res):
    return tmap(lambda t: t.detach(), res)


def shape_of(op, f, variant=0):
    if op.name == "swt":
        return (2, 16)
    n = max(2 * f, 8)
    if op.ndim == 1:
        return (2, 2 * n + (5 if variant else 0))
    if op.ndim == 2:
        small = op.name in ("matrix2ns", "matrix2nsgs", "packet2b", "packet2bs")
        return (1, n if small else 2 * n, n + 2 + (1 if variant else 0))
    return (1, n, n + (1 if variant else 0), n)


def level_of(op):
    return 1 if op.ndim == 3 or op.name in ("matrix2ns", "matrix2nsgs", "packet2b") else 2


def evaluate(name, w, b, rep, mode, level, shape, dt, kind=1):
    """(forward, inverse) results of one representation; w None for own filters."""
    op = OPS[name]
    x = dense(shape, dt, kind)
    make = (lambda: w) if rep == "name" else (lambda: REPS[rep](w, b))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fwd = detached(op.fwd(x, make(), mode, level))
        inv = detached(op.inv(fwd, make(), mode)) if op.has_inverse else None
    return [fwd, inv] if inv is not None else [fwd]


def tol(rep, dt):
    return 3e-6 if rep in SINGLE and dt is F64 else None


def compare(rec, got, want, what, key, rep="name", dt=F64):
    same(rec, got, want, what, key, rtol=tol(rep, dt))
    rec.case(key)


# ------------------------------------------------------------ representations
def run_reps(unit, rec):
    op, w = OPS[unit["op"]], unit["wavelet"]
    b = [list(f) for f in ref.bank(w)]
    f = len(b[0])
    modes = list(op.modes)
    for dt, variant, level in itertools.product((F64, F32), (0, 1), (level_of(op), None)):
        if op.name == "swt" and variant:
            continue
        shape = shape_of(op, f, variant)
        if not op.modes or modes[0] is None:
            mode = None
        else:
            mode = modes[variant % len(modes)]
        want = evaluate(op.name, w, b, "name", mode, level, shape, dt)
        for rep in REPS:
            if not accepts(op, rep, level):
                continue
            key = ("rep", op.name, w, rep, str(dt), shape, level)
            try:
                got = evaluate(op.name, w, b, rep, mode, level, shape, dt)
            except Exception as e:  # noqa: B902
                rec.fail(f"{op.name} with {w} as {rep}: {e!r}"[:400], key)
            compare(rec, got, want, f"{op.name} with {w} as {rep} instead of its name", key, rep, dt)


def run_all1(unit, rec):
    """All discrete wavelets in the one-dimensional transforms."""
    for w in unit["wavelets"]:
        b = [list(f) for f in ref.bank(w)]
        for name in ("wavedec", "swt", "packet1"):
            op = OPS[name]
            shape = (16,) if name == "swt" else (2 * len(b[0]) + 3,)
            for level in (1, None):
                want = evaluate(name, w, b, "name", op.modes[0], level, shape, F64)
                for rep in ("object", "tuple64", "product", "lists", "renamed"):
                    if accepts(op, rep, level):
                        key = ("all", name, w, rep, level)
                        compare(rec, evaluate(name, w, b, rep, op.modes[0], level, shape, F64), want,
                                f"{name} with {w} as {rep} instead of its name", key)


# ------------------------------------------------------------ different filters
def rivals(w):
    """Filter banks of equal length, each with a representation that resembles the others."""
    b = [list(f) for f in ref.bank(w)]
    flip = [f[::-1] for f in b]
    neg = [[-v for v in f] for f in b]
    half = [[v * s for v in f] for f, s in zip(b, (0.5, 0.5, 2.0, 2.0))]
    last = [list(f) for f in b]
    last[1] = [-v for v in last[1]]
    last[3] = [-v for v in last[3]]
    return [(w, b, "name"), (w, b, "object"), (None, flip, "renamed"), (None, flip, "tuple64"), (None, neg, "tuple64"),
            (None, half, "lists"), (None, last, "tuples"), (None, flip, "product"), (None, last, "tuple32")]


def run_rivals(unit, rec):
    """All ordered pairs of wavelets of equal length in one process."""
    op, w = OPS[unit["op"]], "db2" if unit["op"] not in ("matrix2ns", "packet2b", "packet2bs", "matrix3", "matrix2nsgs") else "haar"
    level = level_of(op)
    shape = shape_of(op, ref.flen(w))
    mode = op.modes[0]
    alts = [r for r in rivals(w) if accepts(op, r[2], level)]
    wants = [isolated(evaluate, op.name, r[0], r[1], r[2], mode, level, shape, F64) for r in alts]
    for i, j in itertools.product(range(len(alts)), repeat=2):
        for k in (i, j):
            r = alts[k]
            key = ("pair", op.name, i, j, k)
            compare(rec, evaluate(op.name, r[0], r[1], r[2], mode, level, shape, F64), wants[k],
                    f"{op.name} with filters {k} ({r[2]}) after filters {i}", key)


def run_partial(unit, rec):
    """Filter banks of one name that share some of their four filters, all subsets."""
    op, w = OPS[unit["op"]], "db2" if unit["op"] not in ("matrix2ns", "packet2b", "packet2bs", "matrix3", "matrix2nsgs") else "haar"
    level = level_of(op)
    shape = shape_of(op, ref.flen(w))
    mode = op.modes[0]
    base = [list(f) for f in ref.bank(w)]
    other = [[-v for v in f[::-1]] for f in base]
    banks = [[(other if mask >> k & 1 else base)[k] for k in range(4)] for mask in range(16)]
    x = dense(shape, F64, 1)
    coeffs = isolated(lambda: detached(op.fwd(x, w, mode, level)))

    def both(rep, bank):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            wav = REPS[rep](None, bank)
            return [detached(op.fwd(x, wav, mode, level))] + ([detached(op.inv(coeffs, wav, mode))] if op.has_inverse else [])

    for rep in ("object", "lists", "tuple64", "product"):
        if not accepts(op, rep, level):
            continue
        wants = [isolated(both, rep, bank) for bank in banks]
        order = [0]
        for mask in range(1, 16):
            order += [mask, 0]
        order += [15] + [k for mask in range(1, 15) for k in (mask, 15)]
        for n, mask in enumerate(order):
            key = ("partial", op.name, rep, mask, n)
            compare(rec, both(rep, banks[mask]), wants[mask], f"{op.name}: {rep} with the filters {mask:04b} replaced", key)


# ------------------------------------------------------------ changed filters
def run_changed(unit, rec):
    """The filters of an object change between two calls."""
    op = OPS[unit["op"]]
    w = "db2" if unit["op"] not in ("matrix2ns", "packet2b", "packet2bs", "matrix3", "matrix2nsgs") else "haar"
    level = level_of(op)
    shape = shape_of(op, ref.flen(w))
    mode = op.modes[0]
    b = [list(f) for f in ref.bank(w)]
    flip = [f[::-1] for f in b]
    longer = [list(f) for f in ref.bank("db3" if w == "db2" else "db2")]
    x = dense(shape, F64, 1)

    def both(wav, coeffs):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fwd = detached(op.fwd(x, wav, mode, level))
            return [fwd] + ([detached(op.inv(coeffs, wav, mode))] if op.has_inverse else [])

    def fresh(bank, coeffs_bank):
        wav = ptwt.WaveletTensorTuple(*tensors(bank, F64))
        cwav = ptwt.WaveletTensorTuple(*tensors(coeffs_bank, F64))
        coeffs = op.fwd(x, cwav, mode, level)
        return both(wav, coeffs)

    def set_bank(obj, bank):
        obj.bank = [list(f) for f in bank]

    def write_bank(obj, bank):
        for f, g in zip(obj.bank, bank):
            f[:] = list(g)

    def write_tuple(obj, bank):
        with torch.no_grad():
            for f, g in zip(obj, bank):
                f.copy_(torch.tensor(g, dtype=f.dtype))

    def write_params(obj, bank):
        with torch.no_grad():
            for f, g in zip(obj.filter_bank, bank):
                f.copy_(torch.tensor(g, dtype=f.dtype))

    def new_params(obj, bank):
        for n, g in zip(("dec_lo", "dec_hi", "rec_lo", "rec_hi"), bank):
            setattr(obj, n, torch.nn.Parameter(torch.tensor(g, dtype=F64)))

    def new_taps(obj, bank):
        for t, g in zip(obj.taps, bank):
            t.data = torch.tensor(g, dtype=F64)

    cases = [("lists", set_bank, True), ("lists", write_bank, False), ("arrays", set_bank, True), ("tensors", set_bank, True),
             ("tuple64", write_tuple, False), ("grad64", write_tuple, False), ("product", write_params, False),
             ("product", new_params, True), ("module", write_params, False), ("module", new_taps, True)]
    for (rep, change, resizable), seq in itertools.product(cases, ((b, flip), (flip, b), (b, flip, b), (b, longer, b), (longer, b, flip))):
        if not accepts(op, rep, level) or (not resizable and any(len(s[0]) != len(seq[0][0]) for s in seq)):
            continue
        if any(len(s[0]) > min(shape[1:]) for s in seq):
            continue
        obj = REPS[rep](None, [list(f) for f in seq[0]])
        for i, bank in enumerate(seq):
            if i:
                change(obj, bank)
            key = ("changed", op.name, rep, change.__name__, len(seq[0][0]), [len(s[0]) for s in seq], seq[0] is b, i)
            want = isolated(fresh, bank, bank)
            compare(rec, both(obj, want[0]), want, f"{op.name}: {rep} after {i} changes of its filters", key)


# ------------------------------------------------------------ traced functions
def rebuild(coeffs, tensors_):
    """The structure of coeffs with other tensors."""
    it = iter(tensors_)
    new = {path: next(it) for path, _ in leaves(coeffs)}

    def walk(o, path):
        if isinstance(o, torch.Tensor):
            return new[path]
        if isinstance(o, dict):
            return {k: walk(v, path + (k,)) for k, v in o.items()}
        if isinstance(o, tuple) and hasattr(o, "_fields"):
            return type(o)(*(walk(v, path + (i,)) for i, v in enumerate(o)))
        return type(o)(walk(v, path + (i,)) for i, v in enumerate(o))

    return walk(coeffs, ())


def flat(res):
    return tuple(t for _, t in leaves(res))


def trace(fn, args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return torch.jit.trace(fn, args, check_trace=False)


def run_trace(unit, rec):
    if unit["op"].startswith("cwt"):
        op = OPS[unit["op"]]
        for dt in (F64, F32):
            f = lambda x: flat(op.fwd(x, None, None, None))  # noqa: E731
            tr = trace(f, (dense((2, 16), dt, 1),))
            for kind in (2, 3):
                y = dense((2, 16), dt, kind)
                compare(rec, list(tr(y)), list(f(y)), "traced cwt", ("trace", op.name, str(dt), kind))
        return
    op = OPS[unit["op"]]
    numeric = op.name.startswith("matrix") or getattr(op, "boundary", False)
    quick = rec.tier == "quick"
    w = unit["wavelet"]
    for variant, dt in itertools.product((0, 1), (F64, F32)):
        if op.name == "swt" and variant:
            continue
        if quick and (variant or dt is F32) and (w != "haar" or op.name == "matrix2nsgs" or (variant and dt is F32)):
            continue
        for mode in op.modes:
            if quick and mode != op.modes[0] and (w != "haar" or dt is F32 or not variant):
                continue
            shape = shape_of(op, ref.flen(w), variant)
            for level in (1 if op.name.startswith("packet2") or quick and op.ndim > 1 else level_of(op), None):
                if level is None and quick and (mode != op.modes[0] or op.name.startswith("packet2")):
                    continue
                key = ("trace", op.name, w, shape, str(dt), mode, level)
                f = lambda x: flat(op.fwd(x, w, mode, level))  # noqa: E731, B023
                x = dense(shape, dt, 1)
                try:
                    tr = trace(f, (x,))
                except Exception:  # noqa: B902
                    if level is not None:
                        raise
                    # shapes are no plain numbers while tracing
                    rec.count("automatic levels that cannot be traced")
                    continue
                for kind in (1, 2, 3):
                    y = dense(shape, dt, kind) if kind < 3 else torch.zeros(shape, dtype=dt)
                    compare(rec, list(tr(y)), list(f(y)), f"traced {op.name}", key + (kind,))
                if op.has_inverse:
                    coeffs = op.fwd(x, w, mode, level)
                    g = lambda *ts: op.inv(rebuild(coeffs, ts), w, mode)  # noqa: E731, B023
                    tr = trace(g, flat(coeffs))
                    for kind in (1, 2):
                        ts = flat(op.fwd(dense(shape, dt, kind), w, mode, level))
                        compare(rec, tr(*ts), g(*ts), f"traced inverse of {op.name}", key + ("inv", kind))
                if numeric or level is None:
                    # the automatic level needs the length of the filters as a number
                    continue
                # the filters are arguments as well
                b = [torch.tensor(q, dtype=dt) for q in ref.bank(w)]
                for label, make in (("tuple", lambda bs: ptwt.WaveletTensorTuple(*bs)),):
                    f2 = lambda x, *bs: flat(op.fwd(x, make(bs), mode, level))  # noqa: E731, B023
                    tr = trace(f2, (x, *b))
                    for kind, scale in ((1, -0.5), (2, 3.0)):
                        nb = [q.flip(0) * scale for q in b]
                        y = dense(shape, dt, kind)
                        compare(rec, list(tr(y, *nb)), list(f2(y, *nb)), f"traced {op.name} with filters as arguments",
                                key + (label, kind))
                    if op.has_inverse:
                        g2 = lambda *a: op.inv(rebuild(coeffs, a[4:]), make(a[:4]), mode)  # noqa: E731, B023
                        tr = trace(g2, (*b, *flat(coeffs)))
                        nb = [q.flip(0) * -0.5 for q in b]
                        ts = flat(op.fwd(dense(shape, dt, 2), w, mode, level))
                        compare(rec, tr(*nb, *ts), g2(*nb, *ts), f"traced inverse of {op.name} with filters as arguments",
                                key + (label, "inv"))


def wavelets_for(name, tier):
    if name in ("matrix2ns", "matrix2nsgs", "packet2b", "packet2bs"):
        return ["haar"] if name == "matrix2nsgs" or tier == "quick" else ["haar", "db2"]
    if name.startswith(("matrix", "packet1b")):
        return ["haar", "db2"] if tier == "quick" else ["haar", "db2", "sym4", "coif1"]
    if OPS[name].ndim == 3:
        return ["haar", "bior1.3"] if tier == "quick" else ["haar", "bior1.3", "db3"]
    res = ["haar", "db2", "bior2.4", "rbio1.3"]
    return res if tier == "quick" else res + ["sym5", "coif2", "db10", "dmey"]


def units(tier, seed):
    res = []
    for n in NAMES:
        for w in wavelets_for(n, tier):
            res.append(dict(kind="reps", op=n, wavelet=w))
        res.append(dict(kind="rivals", op=n))
        res.append(dict(kind="partial", op=n))
        res.append(dict(kind="changed", op=n))
    for n in OPS:
        wavs = ["haar", "db2"] if n.startswith(("matrix", "packet1b")) else ["haar", "db2", "bior2.2"]
        if n in ("matrix2nsgs", "matrix2ns", "packet2b", "packet2bs", "matrix3"):
            wavs = ["haar"]
        for w in wavs[:1] if n.startswith("cwt") else wavs:
            res.append(dict(kind="trace", op=n, wavelet=w))
    for i in range(0, len(ref.DISCRETE), 8):
        res.append(dict(kind="all1", wavelets=ref.DISCRETE[i:i + 8]))
    return res


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = structure
