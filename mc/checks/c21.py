"""C21: automatic and excessive levels resolve to the documented depth."""
import itertools
import warnings

import numpy as np
import torch

import ptwt

from .. import boundary, ref
from ..ops import OPS
from ..util import F64, call, dense, leaves, same

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of transforms, filter lengths, side lengths around every step of the "
             "level formula and level arguments; the oracle counts levels in integers")
RULE = (
    "one case per (transform, wavelet, sides, axes, level argument); every size from 1 to a bound and, for "
    "every level L, the sizes (f-1)*2^L-1, (f-1)*2^L and (f-1)*2^L+1; levels None, 0, 1, ..., beyond the maximum; "
    "for trees and matrix objects also ordered pairs of sizes on one object; non-trivial: the number "
    "of levels and the shapes were compared"
)
ASSUMPTIONS = ["shapes of one level are those decided by C01 to C12"]


def by_length():
    """One wavelet per filter length."""
    res = {}
    for w in ref.EVEN:
        res.setdefault(ref.flen(w), w)
    return res


def depth(n, f):
    """Largest L with n >= (f - 1) * 2^L, 0 if there is none."""
    lev = 0
    while n >= (f - 1) * 2 ** (lev + 1):
        lev += 1
    return lev


def swt_depth(n):
    lev = 0
    while n % 2 ** (lev + 1) == 0:
        lev += 1
    return lev


def auto(op, sides, f):
    if op.name == "swt":
        return swt_depth(sides[0])
    if op.name.startswith("matrix1"):
        return depth(sides[0] + sides[0] % 2, f)
    return depth(min(sides), f)


def done_levels(op, sides, f, asked):
    """Levels that are computed if so many are asked for."""
    if not op.name.startswith("matrix"):
        return asked
    if op.ndim == 1:
        return boundary.levels(sides[0], f, asked)
    cur, done = list(sides), 0
    while done < asked and min(cur) >= f:
        cur = [(n + 1) // 2 for n in cur]
        done += 1
    return done


def node_sizes(op, sides, f, level):
    """Transformed sides on each level, finest first."""
    res = []
    cur = list(sides)
    for _ in range(level):
        if op.name == "swt":
            pass
        elif op.name.startswith("matrix") or getattr(op, "boundary", False):
            cur = [(n + 1) // 2 for n in cur]
        else:
            cur = [ref.out_len(n, f) for n in cur]
        res.append(tuple(cur))
    return res


def place(shape, axes, sides, size):
    """Shape with the transformed axes replaced."""
    res = list(shape)
    for a, n in zip(axes, size):
        res[a] = n
    assert len(sides) == len(size)
    return tuple(res)


def detail_list(c):
    if isinstance(c, torch.Tensor):
        return [c]
    if isinstance(c, dict):
        return list(c.values())
    return list(c)


def refused(op, sides, f, mode, level):
    if op.name.startswith("matrix1") and mode == "reflect" and sides[0] == 1:
        # the sample is extended before the length is judged
        return True
    return op.refusable(sides, f, mode, level)


def n_details(op):
    return 2 ** op.ndim - 1


def forward(op, x, w, mode, level, axes):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return op.fwd(x, w, mode, level, axes)


def check_one(rec, op, w, f, sides, axes, mode, levels):
    """All level arguments of one transform of one shape."""
    nd = op.ndim
    ax = axes if axes is not None else tuple(range(-nd, 0))
    shape = [1] * (nd + 1)
    if axes is not None and len({a % 3 for a in axes}) == len(axes) and nd < 3:
        shape = [1, 1, 1]
    for a, n in zip(ax, sides):
        shape[a] = n
    shape = tuple(shape)
    x = dense(shape, F64, 1)
    top = auto(op, sides, f)
    if op.name.startswith("packet") and nd == 2 and top > 4:
        raise AssertionError("too deep a tree for this check")
    results = {}
    for level in levels:
        asked = top if level is None else level
        key = (op.name, w, shape, ax, mode, level)
        if op.name.startswith("matrix") and level == 0:
            _, exc = call(forward, op, x, w, mode, level, axes)
            ok = isinstance(exc, ValueError) or (exc is not None and refused(op, sides, f, mode, 0))
            rec.check(ok, f"{op.name}: level 0 is not rejected: {exc!r}", key)
            rec.case(key)
            continue
        may = refused(op, sides, f, mode, asked)
        got, exc = call(forward, op, x, w, mode, level, axes)
        if exc is not None:
            if may:
                rec.case(key, nontrivial=False)
                continue
            rec.fail(f"{op.name} of {shape} with level {level}: {exc!r}"[:400], key)
        done = done_levels(op, sides, f, asked)
        results[level] = got
        rec.case(key)
        sizes = node_sizes(op, sides, f, done)
        if not isinstance(got, (list, tuple)):
            rec.fail(f"{op.name}: {type(got)}", key)
        if len(got) != done + 1:
            rec.fail(f"{op.name} of sides {sides} along {ax} with {w} (length {f}) and level {level}: {len(got) - 1} levels "
                     f"instead of {done}", key)
        want_a = place(shape, ax, sides, sizes[-1]) if done else shape
        if done == 0 and op.ndim == 1 and op.name.startswith("matrix"):
            want_a = place(shape, ax, sides, (sides[0] + sides[0] % 2,))
        if tuple(got[0].shape) != want_a:
            rec.fail(f"{op.name}: approximation {tuple(got[0].shape)} instead of {want_a}", key)
        if done == 0 and want_a == shape and not torch.equal(got[0], x):
            rec.fail(f"{op.name}: zero levels change the data", key)
        for i, det in enumerate(got[1:]):
            want_d = place(shape, ax, sides, sizes[done - 1 - i])
            ts = detail_list(det)
            if len(ts) != n_details(op) or any(tuple(t.shape) != want_d for t in ts):
                rec.fail(f"{op.name}: details {i} {[tuple(t.shape) for t in ts]} instead of {want_d}", key)
    # levels build on each other; automatic and excessive ones repeat explicit ones
    for level, got in results.items():
        key = (op.name, w, shape, ax, mode, level, "same")
        asked = top if level is None else level
        done = done_levels(op, sides, f, asked)
        if done != level and done in results:
            same(rec, got, results[done], f"{op.name} with level {level} instead of {done}", key)
            rec.case(key)
        elif done == level and level and level - 1 in results and level - 1 > 0:
            low = results[level - 1]
            same(rec, list(got[2:]), list(low[1:]), f"{op.name}: details of level {level} and {level - 1}", key)
            if op.name != "swt":
                more = forward(op, low[0], w, mode, 1, axes)
                same(rec, list(got[:2]), list(more), f"{op.name}: level {level} is one more level", key, rtol=1e-10)
            rec.case(key)


def check_tree(rec, op, w, f, sides, axes, mode, levels):
    nd = op.ndim
    ax = axes if axes is not None else tuple(range(-nd, 0))
    shape = [1] * (nd + 1)
    if axes is not None and nd < 3:
        shape = [1, 1, 1]
    for a, n in zip(ax, sides):
        shape[a] = n
    shape = tuple(shape)
    x = dense(shape, F64, 1)
    top = auto(op, sides, f)
    for level in levels:
        asked = top if level is None else level
        key = (op.name, w, shape, ax, mode, level)
        wp = op.tree(x, w, mode, level, axes)
        rec.case(key)
        if wp.maxlevel != asked:
            rec.fail(f"{op.name} of sides {sides} along {ax} with {w} (length {f}): maxlevel {wp.maxlevel} instead of {asked}", key)
        # the deepest node can be read, one more letter cannot
        for letter in op.letters:
            path = letter * asked
            if not op.refusable(sides, f, mode, asked) and asked <= (top if op.boundary else top + 2):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    node, exc = call(lambda: wp[path])  # noqa: B023
                if exc is not None:
                    rec.fail(f"{op.name}: reading {path!r}: {exc!r}"[:300], key)
                sizes = node_sizes(op, sides, f, asked)
                want = place(shape, ax, sides, sizes[-1]) if asked else shape
                rec.check(tuple(node.shape) == want, f"{op.name}: node {path!r} {tuple(node.shape)} instead of {want}", key)
            _, exc = call(lambda: wp[path + letter])  # noqa: B023
            rec.check(isinstance(exc, KeyError), f"{op.name}: reading below the deepest level: {exc!r}"[:300], key)
        if asked <= 3 and op.name != "packet1b":
            n_nodes = len(op.letters) ** asked
            nodes = wp.get_level(asked) if nd == 1 else wp.get_natural_order(asked)
            rec.check(len(nodes) == n_nodes, f"{op.name}: {len(nodes)} nodes on level {asked}", key)


def check(rec, op, *args):
    (check_tree if op.name.startswith("packet") else check_one)(rec, op, *args)


def level_list(op, sides, f, extra=2):
    top = auto(op, sides, f)
    return [None] + list(range(0, top + extra + 1))


# ------------------------------------------------------------ units
def run_line(unit, rec):
    """1-D: all lengths up to a bound and around every step."""
    op, f = OPS[unit["op"]], unit["f"]
    w = by_length()[f]
    for n in unit["lengths"]:
        for mode in op.modes[:1] if n > 40 else op.modes:
            for axes in (None, (1,)) if n < 40 else (None,):
                check(rec, op, w, f, (n,), axes, mode, level_list(op, (n,), f))


def run_steps(unit, rec):
    """1-D: long signals around the steps of the formula."""
    op, f = OPS[unit["op"]], unit["f"]
    w = by_length()[f]
    for n in unit["lengths"]:
        top = auto(op, (n,), f)
        levels = [None] + [v for v in (top, top + 1) if v or not op.name.startswith("matrix")]
        check(rec, op, w, f, (n,), None, op.modes[0], levels)


def run_grid(unit, rec):
    """2-D and 3-D: all combinations of sides."""
    op, f = OPS[unit["op"]], unit["f"]
    w = by_length()[f]
    heavy = op.name in ("matrix2ns", "matrix2nsgs")
    for sides in unit["sides"]:
        sides = tuple(sides)
        for axes in (None, unit["axes"]):
            if axes is not None:
                if op.ndim == 2 and op.axes_ok:
                    axes = tuple(axes)
                elif op.ndim == 3:
                    axes = tuple(axes)
                if heavy and max(sides) > 8:
                    continue
            levels = level_list(op, sides, f, 1 if op.ndim == 3 or heavy else 2)
            if op.name.startswith("packet"):
                levels = levels[:5]
            check(rec, op, w, f, sides, axes, op.modes[sum(sides) % len(op.modes)], levels)


def run_reuse(unit, rec):
    """Automatic levels follow the data of each call."""
    op, f = OPS[unit["op"]], unit["f"]
    w = by_length()[f]
    steps = [(f - 1) * 2 ** lev + d for lev in range(0, 4) for d in (-1, 0, 1)]
    steps = sorted({n for n in steps if n >= 1})[: 9 if op.ndim == 1 else 6]
    combos = [(n,) for n in steps] if op.ndim == 1 else [(a, b) for a in steps for b in steps if abs(a - b) < 3 * f]
    if op.ndim == 3:
        combos = [(a, b, a) for a in steps for b in steps]
    combos = combos[-10:] if op.ndim > 1 else combos
    mode = op.modes[0]
    for first, second in itertools.product(combos, repeat=2):
        x, y = dense((1,) + first, F64, 1), dense((1,) + second, F64, 2)
        key = ("reuse", op.name, w, first, second)
        if op.name.startswith("packet"):
            for explicit in (None, 1):
                wp = op.tree(x, w, mode, explicit)
                wp.transform(y)
                rec.check(wp.maxlevel == auto(op, second, f),
                          f"{op.name}: maxlevel {wp.maxlevel} of {second} after {first}", key)
                wp.transform(x, 3)
                rec.check(wp.maxlevel == 3, f"{op.name}: maxlevel {wp.maxlevel} after an explicit one", key)
        else:
            dec = op.make_dec(w, mode, None)
            for sides, data in ((first, x), (second, y), (first, x)):
                got = dec(data)
                want = auto(op, sides, f)
                rec.check(len(got) == want + 1, f"{op.name}: {len(got) - 1} levels of {sides} instead of {want}", key)
        rec.case(key)


def steps_for(f, bound):
    res = set()
    lev = 0
    while (f - 1) * 2 ** lev <= bound:
        res.update((f - 1) * 2 ** lev + d for d in (-1, 0, 1))
        lev += 1
    return sorted(n for n in res if 1 <= n <= bound)


def run_long(unit, rec):
    """Automatic levels of very long signals and images."""
    op, f = OPS[unit["op"]], unit["f"]
    w = by_length()[f]
    mode = op.modes[0] if op.modes else None
    for sides in unit["sides"]:
        key = (op.name, w, tuple(sides), "long")
        top = auto(op, sides, f)
        x = torch.zeros(tuple(sides), dtype=torch.float32)
        if op.name.startswith("packet"):
            make = ptwt.WaveletPacket if op.ndim == 1 else ptwt.WaveletPacket2D
            tree = make(x, w, mode="zero")
            rec.check(tree.maxlevel == top, f"{op.name} of sides {sides}: maximum level {tree.maxlevel} instead of {top}", key)
        else:
            got = forward(op, x, w, mode, None, None)
            rec.check(len(got) - 1 == top, f"{op.name} of sides {sides}: {len(got) - 1} levels instead of {top}", key)
            want = tuple(node_sizes(op, sides, f, top)[-1]) if top else tuple(sides)
            rec.check(tuple(got[0].shape) == want, f"{op.name} of sides {sides}: approximation {tuple(got[0].shape)} instead of {want}", key)
        rec.case(key)


def units(tier, seed):
    quick = tier == "quick"
    lens = sorted(by_length())
    res = []
    ones = [n for n in OPS if OPS[n].ndim == 1 and not n.startswith("cwt")]
    for name in ones:
        numeric = name.startswith("matrix") or name == "packet1b"
        for f in lens:
            if numeric and quick and f not in (2, 4, 6, 10, 16):
                continue
            if numeric and f > (24 if quick else 40):
                continue
            bound = (26 if numeric else 66) if quick else (70 if numeric else 200)
            if name == "packet1":
                bound = min(bound, 40)
            if name == "matrix1gs" and f > 20:
                continue
            if name == "swt" and f > 20 and quick:
                continue
            allof = list(range(1, bound + 1))
            step = 26 if numeric else 50
            for i in range(0, len(allof), step):
                res.append(dict(kind="line", op=name, f=f, lengths=allof[i:i + step]))
            top = ((600 if f < 10 else 300) if quick else 2100) if numeric else (2 ** 14 if quick else 2 ** 18)
            if name == "packet1":
                top = 2000
            if name == "matrix1gs":
                top = 130
            lengths = [n for n in steps_for(f, top) if n > bound]
            if name == "swt":
                lengths = [2 ** a * b for a in range(1, 13) for b in (1, 3, 5, 7)]
                lengths = [n for n in lengths if bound < n <= (2 ** 10 if quick else 2 ** 13)] if f in (2, 8) else []
            if lengths:
                res.append(dict(kind="steps", op=name, f=f, lengths=lengths))
    for name in OPS:
        op = OPS[name]
        if op.ndim == 1:
            continue
        numeric = name.startswith("matrix") or getattr(op, "boundary", False)
        small = name in ("matrix2ns", "matrix2nsgs", "packet2b", "matrix3")
        fs = ((2, 4) if small else (2, 4, 6, 8)) if quick else ((2, 4, 6) if small else (2, 4, 6, 8, 10, 12, 20))
        for f in fs:
            if op.ndim == 2:
                if small:
                    vals = sorted(set(range(1, 5)) | set(n for n in steps_for(f, 13)))
                    vals = [v for v in vals if v <= (9 if f < 6 else 13)]
                else:
                    vals = sorted({1, 2, 3} | set(steps_for(f, 30 if numeric else 50)))
                if name.startswith("packet"):
                    vals = [v for v in vals if depth(v, f) <= 3]
                sides = [list(s) for s in itertools.product(vals, repeat=2)]
                axes = [0, 1]
            else:
                vals = sorted({1, 2} | set(steps_for(f, 14 if f < 6 or not quick else 8)))
                if quick:
                    vals = vals[:6] if name != "matrix3" else vals[:6]
                    if f > 4:
                        vals = [f - 2, f - 1, 2 * f - 3, 2 * f - 2]
                sides = [list(s) for s in itertools.product(vals, repeat=3)]
                axes = [2, 3, 1]
            for i in range(0, len(sides), 60):
                res.append(dict(kind="grid", op=name, f=f, sides=sides[i:i + 60], axes=axes))
    top = 2 ** 20 if quick else 2 ** 23
    for f in (2, 4, 8, 20, 76):
        for name in ("wavedec", "packet1"):
            res.append(dict(kind="long", op=name, f=f, sides=[[n] for n in steps_for(f, top) if n > 2 ** 12]))
        for name in ("wavedec2", "fswavedec2", "packet2"):
            vals = [n for n in steps_for(f, 2 ** 11) if n > 2 ** 7]
            res.append(dict(kind="long", op=name, f=f, sides=[[n, m] for n in vals[-3:] for m in vals[-3:] + [2 ** 12]] +
                            [[64, 2 ** 15], [2 ** 15, 64], [2 ** 15, 4 * f]]))
        for name in ("wavedec3", "fswavedec3"):
            vals = [n for n in steps_for(f, 80) if n > 20][-3:]
            res.append(dict(kind="long", op=name, f=f, sides=[[n, m, k] for n in vals for m in vals for k in (vals[-1], 513)]))
    res.append(dict(kind="long", op="swt", f=2, sides=[[2 ** a * b] for a in range(8, 17) for b in (1, 3, 5) if 2 ** a * b < 2 ** 18]))
    for name in ("matrix1", "matrix2", "matrix3", "packet1", "packet1b", "packet2", "packet2s", "packet2bs"):
        for f in (2, 4) if quick else (2, 4, 6, 8):
            res.append(dict(kind="reuse", op=name, f=f))
    return res


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = (np, ptwt, leaves)
