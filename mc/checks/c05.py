"""C05: axes, batch and memory layout only relabel a transform."""
import itertools

import torch

from .. import ref
from ..ops import OPS
from ..util import F32, F64, call, dense, leaves, same, tmap

LEVEL = "exploration"
RULE = (
    "every ordered selection of distinct axes (all sign conventions) of inputs with up "
    "to five dimensions, every batch shape and memory layout of the alphabet, for every "
    "transform and inverse; the reference transforms each batch item's moved, "
    "contiguous axes on its own; plus every repeated, surplus, missing or out-of-range "
    "axis, and every position of a NaN/inf batch item; non-trivial: more than one "
    "dimension, batch item or layout, and all values compared"
)
ASSUMPTIONS = ["the values of single unbatched transforms (decided by C01-C04, C06-C09, C12)"]

NAMES = list(OPS)


def units(tier, seed):
    res = []
    for name in NAMES:
        op = OPS[name]
        for w in ("haar", "db2"):
            for mode in op.modes:
                if name == "matrix2nsgs" and (mode != "zero" and tier == "quick"):
                    continue
                if op.axes_ok:
                    res.append(dict(kind="axes", op=name, wavelet=w, mode=mode))
                res.append(dict(kind="batch", op=name, wavelet=w, mode=mode))
        res.append(dict(kind="small", op=name))
        res.append(dict(kind="many", op=name))
        res.append(dict(kind="empty", op=name))
        if op.axes_ok:
            res.append(dict(kind="reject", op=name))
    return res


def cost(unit):
    op = OPS[unit["op"]]
    if unit["op"] == "matrix2nsgs":
        return 1000
    return op.ndim ** 2 * (3 if "b" in unit["op"] or "matrix" in unit["op"] else 1) * (
        2 if unit["kind"] == "axes" else 1)


SIDES = (6, 7, 8)


class Items:
    """Reference: every item on its own, with default axes."""

    def __init__(self, op, w, mode, level):
        self.op, self.w, self.mode, self.level = op, w, mode, level

    def forward(self, x, axes):
        nd = self.op.ndim
        y = torch.movedim(x, axes, tuple(range(-nd, 0)))
        batch = y.shape[: y.ndim - nd]
        items = y.reshape((-1,) + tuple(y.shape[y.ndim - nd:])) if batch else y[None]
        res = [self.op.fwd(i.contiguous().clone(), self.w, self.mode, self.level) for i in items]
        return self.join(res, batch, axes)

    def inverse(self, c, axes):
        nd = self.op.ndim
        moved = tmap(lambda t: torch.movedim(t, axes, tuple(range(-nd, 0))), c)
        first = next(iter(leaves(moved)))[1]
        batch = first.shape[: first.ndim - nd]
        count = 1
        for b in batch:
            count *= b

        def item(i):
            return tmap(
                lambda t: t.reshape((count,) + tuple(t.shape[t.ndim - nd:]))[i].contiguous().clone(),
                moved)

        res = [self.op.inv(item(i), self.w, self.mode) for i in range(count)]
        return self.join(res, batch, axes)

    def join(self, res, batch, axes):
        nd = self.op.ndim
        if self.op.name.startswith("cwt"):
            # scales come first
            t = torch.stack([r[0] for r in res], 1)
            return [t.reshape(t.shape[:1] + tuple(batch) + t.shape[2:])]
        its = [list(leaves(r)) for r in res]
        outs = []
        for j in range(len(its[0])):
            t = torch.stack([it[j][1] for it in its])
            t = t.reshape(tuple(batch) + tuple(t.shape[1:]))
            outs.append(torch.movedim(t, tuple(range(-nd, 0)), axes))
        k = iter(outs)
        return _refill(res[0], k)


def _refill(obj, it):
    # leaves() walks dictionaries in sorted key order
    if isinstance(obj, torch.Tensor):
        return next(it)
    if isinstance(obj, dict):
        return {k: _refill(obj[k], it) for k in sorted(obj)}
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        return type(obj)(*(_refill(v, it) for v in obj))
    return type(obj)(_refill(v, it) for v in obj)


def level_of(op, w):
    if not op.has_level:
        return None
    return 2 if w == "haar" or op.name.startswith(("wavedec", "fs", "swt", "packet1")) and not op.name.endswith("b") else 1


def shape_for(d, axes, nd):
    shape = [2, 1, 3, 2, 2][:d]
    for a, n in zip(axes, SIDES):
        shape[a] = n
    return tuple(shape)


def run_axes(unit, rec):
    op, w, mode = OPS[unit["op"]], unit["wavelet"], unit["mode"]
    nd = op.ndim
    level = level_of(op, w)
    items = Items(op, w, mode, level)
    top = 5 if nd < 3 or rec.tier != "quick" else 4
    if nd == 3 and mode in ("symmetric", None) and w == "haar":
        top = 5
    if op.name.startswith("packet2b") or op.name == "matrix2nsgs":
        top = 4
    all_signs = w == "haar"
    for d in range(nd, top + 1):
        for axes in itertools.permutations(range(d), nd):
            if op.refusable(SIDES[:nd], ref.flen(w), mode, level or 0):
                rec.count("skipped_unservable")
                continue
            shape = shape_for(d, axes, nd)
            x = dense(shape, F64, kind=d)
            want = items.forward(x, axes)
            back = None
            signs = itertools.product((0, 1), repeat=nd)
            if not all_signs:
                signs = ((0,) * nd, (1,) * nd)
            for sg in signs:
                ax = tuple(a - d if s else a for a, s in zip(axes, sg))
                key = (op.name, w, mode, shape, ax)
                rec.case(key, nontrivial=d > 1)
                got = op.fwd(x, w, mode, level, axes=ax)
                same(rec, got, want, "forward along axes", key)
                if op.has_inverse:
                    if back is None:
                        # arbitrary coefficients of these shapes
                        i = itertools.count()
                        coeffs = tmap(lambda t: dense(tuple(t.shape), F64, kind=next(i)), want)
                        back = items.inverse(coeffs, axes)
                    rec.case(key + ("inverse",), nontrivial=d > 1)
                    same(rec, op.inv(coeffs, w, mode, axes=ax), back, "inverse along axes", key)
                if nd > 1 and sg == (0,) * nd:
                    # a list is as good as a tuple
                    got = op.fwd(x, w, mode, level, axes=list(ax))
                    same(rec, got, want, "forward along a list of axes", key)


def layouts(x):
    """The same values in every memory layout of the alphabet."""
    yield "contiguous", x
    if x.ndim > 1:
        yield "transposed", x.transpose(0, -1).contiguous().transpose(0, -1)
        perm = tuple(range(1, x.ndim)) + (0,)
        inv = tuple(sorted(range(x.ndim), key=lambda i: perm[i]))
        yield "rotated", x.permute(perm).contiguous().permute(inv)
    big = torch.full(tuple(2 * s for s in x.shape), 7.0, dtype=x.dtype)
    big[tuple(slice(0, None, 2) for _ in x.shape)] = x
    yield "strided", big[tuple(slice(0, None, 2) for _ in x.shape)]
    buf = torch.full((x.numel() + 5,), 9.0, dtype=x.dtype)
    buf[5:] = x.reshape(-1)
    yield "offset", buf[5:].view(x.shape)
    wide = torch.full(tuple(x.shape[:-1]) + (x.shape[-1] + 3,), 5.0, dtype=x.dtype)
    wide[..., 1:-2] = x
    yield "slice", wide[..., 1:-2]
    # views that are negated or that skip the other part of complex numbers
    yield "negated view", torch._neg_view(-x)
    yield "real part", torch.complex(x, x + 1).real
    if x.ndim == 4:
        yield "channels_last", x.contiguous(memory_format=torch.channels_last)


BATCHES = ((), (1,), (2,), (3,), (1, 1), (2, 3), (3, 1), (1, 2), (2, 1, 3), (1, 1, 1), (2, 2, 1, 2))


def run_batch(unit, rec):
    op, w, mode = OPS[unit["op"]], unit["wavelet"], unit["mode"]
    nd = op.ndim
    level = level_of(op, w)
    items = Items(op, w, mode, level)
    axes = tuple(range(-nd, 0))
    f = ref.flen(w)
    sides_list = [SIDES[:nd], (6,) * nd, (8, 6, 6)[:nd]]
    if op.name == "matrix2nsgs" and w != "haar" and rec.tier == "quick":
        sides_list = [(6, 4)]
    for sides in sides_list:
        if op.refusable(sides, f, mode, level or 0):
            continue
        for batch in BATCHES:
            x = dense(batch + sides, F64, kind=4)
            want = items.forward(x, axes)
            coeffs = back = None
            if op.has_inverse:
                i = itertools.count()
                coeffs = tmap(lambda t: dense(tuple(t.shape), F64, kind=next(i)), want)
                back = items.inverse(coeffs, axes)
            for lname, xl in layouts(x):
                key = (op.name, w, mode, batch, sides, lname)
                rec.case(key, nontrivial=bool(batch) or lname != "contiguous")
                same(rec, op.fwd(xl, w, mode, level), want, "forward", key)
            if op.has_inverse:
                names = [n for n, _ in layouts(next(iter(leaves(coeffs)))[1])]
                for lname in names:
                    key = (op.name, w, mode, batch, sides, lname, "inverse")
                    rec.case(key, nontrivial=bool(batch) or lname != "contiguous")
                    cl = tmap(lambda t: dict(layouts(t)).get(lname, t), coeffs)
                    same(rec, op.inv(cl, w, mode), back, "inverse", key)
        # broadcast batches
        for batch in ((3,), (2, 3)):
            for pos in range(len(batch)):
                shape = list(batch + sides)
                shape[pos] = 1
                x = dense(tuple(shape), F64, kind=6)
                want = items.forward(x.expand(batch + sides).contiguous(), axes)
                key = (op.name, w, mode, batch, sides, "expanded", pos)
                rec.case(key)
                same(rec, op.fwd(x.expand(batch + sides), w, mode, level), want, "forward", key)
                if op.has_inverse:
                    small = items.forward(x, axes)
                    i = itertools.count()
                    cs = tmap(lambda t: dense(tuple(t.shape), F64, kind=next(i)), small)

                    def grow(t):
                        sh = list(t.shape)
                        sh[pos] = batch[pos]
                        return t.expand(sh)

                    cb = items.inverse(tmap(lambda t: grow(t).contiguous(), cs), axes)
                    same(rec, op.inv(tmap(grow, cs), w, mode), cb, "inverse", key)
        # broadcast signal: all samples share one memory cell
        x = torch.tensor(1.5, dtype=F64).expand((2,) + sides)
        key = (op.name, w, mode, sides, "constant view")
        rec.case(key)
        same(rec, op.fwd(x, w, mode, level), items.forward(x.contiguous(), axes), "forward", key)
        # non-finite items stay on their own
        for bad in (float("nan"), float("inf"), -float("inf")):
            for pos in range(3):
                x = dense((3,) + sides, F64, kind=7)
                clean = op.fwd(x, w, mode, level)
                y = x.clone()
                y[pos] = bad
                got = op.fwd(y, w, mode, level)
                key = (op.name, w, mode, sides, "nonfinite", repr(bad), pos)
                rec.case(key)
                keep = [i for i in range(3) if i != pos]
                bdim = 1 if op.name.startswith("cwt") else 0

                def take(t, bdim=bdim, keep=keep):
                    return t.index_select(bdim, torch.tensor(keep))

                same(rec, tmap(take, got), tmap(take, clean), "other batch items", key)
                if op.has_inverse:
                    i = itertools.count()
                    cs = tmap(lambda t: dense(tuple(t.shape), F64, kind=next(i)), clean)
                    good = op.inv(cs, w, mode)

                    def spoil(t, pos=pos, bad=bad):
                        t = t.clone()
                        t[pos] = bad
                        return t

                    gotb = op.inv(tmap(spoil, cs), w, mode)
                    same(rec, take(gotb), take(good), "other batch items of the inverse", key)
        # single precision in batches
        x = dense((2, 3) + sides, F32, kind=4)
        key = (op.name, w, mode, sides, "f32")
        rec.case(key)
        same(rec, op.fwd(x, w, mode, level), items.forward(x, axes), "forward", key)


def run_small(unit, rec):
    """Axes of length one, in the input or in the coefficients, are kept."""
    op = OPS[unit["op"]]
    nd = op.ndim
    for mode in op.modes:
        for sides in itertools.product((1, 2, 3, 4), repeat=nd):
            if op.refusable(sides, 2, mode, 1):
                continue
            x = dense(sides, F64, kind=3)
            got, exc = call(op.fwd, x, "haar", mode, 1)
            two, exc2 = call(op.fwd, torch.stack([x, x + 1]), "haar", mode, 1)
            key = (op.name, mode, sides, "small")
            rec.case(key)
            if exc is not None or exc2 is not None:
                # refused with and without a batch
                rec.check(exc is not None and exc2 is not None,
                          lambda: f"alone: {exc!r}, in a batch: {exc2!r}", key)
                continue
            bdim = 1 if op.name.startswith("cwt") else 0
            same(rec, got, tmap(lambda t: t.select(bdim, 0), two), "unbatched forward", key)
            for batch in ((1,), (1, 1), (1, 2), (2, 1)):
                y = x.expand(batch + sides)

                def spread(t, batch=batch):
                    head = t.shape[:bdim]
                    t = t.reshape(head + (1,) * len(batch) + t.shape[bdim:])
                    return t.expand(head + batch + t.shape[len(head) + len(batch):])

                same(rec, op.fwd(y, "haar", mode, 1), tmap(spread, got), "forward", key + (batch,))
            if not op.has_inverse:
                continue
            i = itertools.count()
            cs = tmap(lambda t: dense(tuple(t.shape), F64, kind=next(i)), two)
            back, exc = call(op.inv, tmap(lambda t: t[0].clone(), cs), "haar", mode)
            both, exc2 = call(op.inv, cs, "haar", mode)
            if exc is not None or exc2 is not None:
                rec.check(exc is not None and exc2 is not None,
                          lambda: f"inverse alone: {exc!r}, in a batch: {exc2!r}", key)
                continue
            same(rec, back, both[0], "unbatched inverse", key)
            for batch in ((1,), (1, 1), (1, 2), (2, 1)):
                cb = tmap(lambda t: t[0].expand(batch + tuple(t.shape[1:])), cs)
                same(rec, op.inv(cb, "haar", mode), back.expand(batch + tuple(back.shape)), "inverse", key + (batch,))


def run_many(unit, rec):
    """Large batches, also in other layouts and on other axes."""
    op = OPS[unit["op"]]
    nd = op.ndim
    slow = op.name.startswith("matrix") or getattr(op, "boundary", False)
    batches = [(70,), (9, 30), (260,)] if slow else [(70,), (9, 30), (260,), (1030,), (33, 40)]
    if op.name in ("matrix2nsgs", "matrix2ns", "packet2b"):
        batches = [(70,), (5, 14)]
    sides = (4, 6, 4)[:nd]
    modes = op.modes if rec.tier != "quick" else op.modes[:1]
    for mode, batch in itertools.product(modes, batches):
        items = Items(op, "haar", mode, 1)
        axes = tuple(range(-nd, 0))
        x = dense(batch + sides, F64, kind=4)
        want = items.forward(x, axes)
        key = (op.name, mode, batch, sides, "many")
        rec.case(key)
        same(rec, op.fwd(x, "haar", mode, 1), want, "forward", key)
        back = None
        if op.has_inverse:
            back = items.inverse(want, axes)
            same(rec, op.inv(want, "haar", mode), back, "inverse", key)
        if not op.axes_ok:
            continue
        # the batch at the end
        first = tuple(range(nd))
        y = torch.movedim(x, axes, first)

        def turn(t, axes=axes, first=first):
            return torch.movedim(t, axes, first)

        same(rec, op.fwd(y, "haar", mode, 1, first), tmap(turn, want), "forward on other axes", key)
        if op.has_inverse:
            same(rec, op.inv(tmap(turn, want), "haar", mode, first), turn(back), "inverse on other axes", key)


def run_empty(unit, rec):
    """A batch without items yields coefficients of the same layout without items."""
    op = OPS[unit["op"]]
    nd = op.ndim
    w = "haar"
    bdim = 1 if op.name.startswith("cwt") else 0
    for mode, sides, batch, level in itertools.product(
            op.modes, ((8, 4, 4)[:nd], (7, 6, 5)[:nd]), ((0,), (0, 2), (2, 0), (1, 0, 3)), (1, 2)):
        if not op.has_level and level > 1:
            continue
        if op.refusable(sides, ref.flen(w), mode, level):
            rec.count("skipped_unservable")
            continue
        pos = batch.index(0)
        one = tuple(b or 1 for b in batch)

        def cut(t, at=bdim + pos):
            return t.narrow(at, 0, 0)

        for axes in itertools.permutations(range(-nd, 0), nd) if op.axes_ok else [None]:
            key = (op.name, mode, sides, batch, level, axes, "empty")
            rec.case(key)
            args = () if axes is None else (axes,)
            for dt in (F64, F32):
                x = dense(one + sides, dt, kind=4)
                want = op.fwd(x, w, mode, level, *args)
                got = op.fwd(x.narrow(pos, 0, 0), w, mode, level, *args)
                same(rec, got, tmap(cut, want), "forward of an empty batch", key)
                if op.has_inverse:
                    back = op.inv(want, w, mode, *args)
                    same(rec, op.inv(tmap(cut, want), w, mode, *args), back.narrow(pos, 0, 0),
                         "inverse of an empty batch", key)


def run_reject(unit, rec):
    op = OPS[unit["op"]]
    nd = op.ndim
    mode = "boundary" if "boundary" in op.modes else op.modes[0]
    for d in range(nd, nd + 3):
        x = dense((8,) * d, F64)
        good = op.fwd(x, "haar", mode, 1)
        cands = set()
        for a in range(-d - 2, d + 2):
            if not -d <= a < d:
                # out of range at any position
                for pos in range(nd):
                    ax = list(range(nd))
                    ax[pos] = a
                    cands.add(tuple(ax))
        if nd > 1:
            for ax in itertools.product(range(-d, d), repeat=nd):
                if len({a % d for a in ax}) < nd:
                    cands.add(ax)
        for k in range(0, d + 1):
            if k != nd:
                for ax in itertools.permutations(range(d), k):
                    cands.add(ax)
        for ax in sorted(cands):
            key = (op.name, d, ax)
            rec.case(key)
            got, exc = call(op.fwd, x, "haar", mode, 1, axes=ax)
            rec.check(exc is not None, "unsuitable axes were accepted", key)
            if op.has_inverse:
                got, exc = call(op.inv, good, "haar", mode, axes=ax)
                rec.check(exc is not None, "unsuitable axes were accepted by the inverse", key)
    # too few dimensions
    for d in range(1, nd):
        key = (op.name, d, "too few dimensions")
        rec.case(key)
        got, exc = call(op.fwd, dense((8,) * d, F64), "haar", mode, 1)
        rec.check(exc is not None, "an input with too few dimensions was accepted", key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
