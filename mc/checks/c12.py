"""C12: packet node values, node orders and reconstruction."""
import itertools

import numpy as np
import torch

import ptwt

from .. import boundary, ref
from ..util import DT, EPS, F32, F64, call, close, dense, to_np
from .c09 import NAMES2, NonSeparable

LEVEL = "exploration"
RULE = (
    "every wavelet x border mode (padding and boundary) x size x maximum level (also "
    "automatic), every unit signal, every node of the tree in several reading orders, "
    "compared with the filters its path names; every unit leaf and arbitrary leaves through "
    "reconstruct(); every single missing leaf and every subset of missing inner nodes; every "
    "node order up to level 12 (2-D: 7); non-trivial: at least one level"
)
ASSUMPTIONS = [
    "the boundary matrices of one level (decided by C08 and C09)",
    "coefficients of named wavelets are those of PyWavelets",
]


# ------------------------------------------------------------- reference
class Bank:
    """One analysis and synthesis step of a tree; keys are node letters."""

    def __init__(self, ndim, w, mode, orth="qr", sep=False, swap=False):
        self.ndim, self.w, self.mode, self.orth, self.sep = ndim, w, mode, orth, sep
        if ndim == 1:
            self.names = {"a": "a", "d": "d"}
        else:
            h, v = ("ad", "da") if swap else ("da", "ad")
            self.names = {"a": "aa", "h": h, "v": v, "d": "dd"}

    def down(self, x):
        if self.mode != "boundary":
            res = ref.dwtn(self.w, x, self.mode, self.ndim)
        else:
            x = self.even(x)
            if self.ndim == 2 and not self.sep:
                res = NonSeparable(self.w, self.orth, "f64").one(x)
            else:
                for pos in range(self.ndim):
                    axis = x.ndim - self.ndim + pos
                    m = boundary.code_matrix(self.w, x.shape[axis], self.orth)
                    x = ref.apply_axis(m, x, axis)
                res = {}
                for key in itertools.product("ad", repeat=self.ndim):
                    sl = [Ellipsis]
                    for pos, k in enumerate(key):
                        half = x.shape[x.ndim - self.ndim + pos] // 2
                        sl.append(slice(0, half) if k == "a" else slice(half, None))
                    res["".join(key)] = x[tuple(sl)]
        return {k: res[v] for k, v in self.names.items()}

    def even(self, x):
        for pos in range(self.ndim):
            if x.shape[x.ndim - self.ndim + pos] % 2:
                x = boundary.extend(x, "zero", x.ndim - self.ndim + pos)
        return x

    def up(self, parts):
        d = {v: parts[k] for k, v in self.names.items()}
        if self.mode != "boundary":
            return ref.idwtn(self.w, d, self.ndim)
        if self.ndim == 2 and not self.sep:
            return NonSeparable(self.w, self.orth, "f64").one_inv(d)
        for pos in reversed(range(self.ndim)):
            new = {}
            for key in {k[:-1] for k in d}:
                a, b = d[key + "a"], d[key + "d"]
                axis = a.ndim - self.ndim + pos
                c = np.concatenate([a, b], axis)
                m = boundary.code_matrix(self.w, c.shape[axis], self.orth)
                new[key] = ref.apply_axis(m.T, c, axis)
            d = new
        return d[""]

    def tree(self, x, level):
        res = {"": x}
        for lev in range(level):
            for p in ref.product_paths(lev, "".join(self.names)):
                for k, v in self.down(res[p]).items():
                    res[p + k] = v
        return res

    def rebuild(self, leaves, shapes, level):
        """All inner nodes from the leaves."""
        res = dict(leaves)
        for lev in reversed(range(level)):
            for p in ref.product_paths(lev, "".join(self.names)):
                y = self.up({k: res[p + k] for k in self.names})
                if lev > 0:
                    y = y[(Ellipsis,) + tuple(slice(0, s) for s in shapes[p][-self.ndim:])]
                res[p] = y
        return res


def servable(w, mode, sides, level):
    f = ref.flen(w)
    for n in sides:
        cur = n
        for _ in range(level):
            if mode == "boundary":
                if cur + (cur % 2 if len(sides) == 1 else 0) < f:
                    return False
                cur = (cur + 1) // 2
            else:
                if ref.may_refuse(cur, f, mode):
                    return False
                cur = ref.out_len(cur, f)
    return True


def make(ndim, x, w, mode, ml, orth="qr", sep=False, axes=None):
    cls = ptwt.WaveletPacket if ndim == 1 else ptwt.WaveletPacket2D
    kw = {} if axes is None else {"axis": axes[0]} if ndim == 1 else {"axes": axes}
    if ndim == 2:
        kw["separable"] = sep
    return cls(x, w, mode=mode, maxlevel=ml, orthogonalization=orth, **kw)


# ----------------------------------------------------------------- units
SMALL = ("haar", "db2", "db3", "bior2.2", "rbio1.3", "sym4")
ALL_MODES = ref.MODES + ("boundary",)


def units(tier, seed):
    res = [dict(kind="orders")]
    quick = tier == "quick"
    for w in SMALL:
        for mode in ALL_MODES:
            if mode == "boundary" and w in ("bior2.2", "rbio1.3"):
                continue
            res.append(dict(kind="tree", ndim=1, wavelet=w, mode=mode, top=18 if quick else 34, orth="qr", sep=False))
            res.append(dict(kind="subsets", ndim=1, wavelet=w, mode=mode, orth="qr", sep=False))
            for sep in (False, True):
                if quick and w in ("rbio1.3", "sym4") or (w in ("db3", "sym4") and mode == "boundary"):
                    continue
                res.append(dict(kind="tree", ndim=2, wavelet=w, mode=mode, top=7 if quick else 9, orth="qr", sep=sep))
                res.append(dict(kind="subsets", ndim=2, wavelet=w, mode=mode, orth="qr", sep=sep))
    res.append(dict(kind="tree", ndim=1, wavelet="db2", mode="boundary", top=14, orth="gramschmidt", sep=False))
    res.append(dict(kind="tree", ndim=2, wavelet="haar", mode="boundary", top=5, orth="gramschmidt", sep=True))
    for w in ref.EVEN:
        res.append(dict(kind="wavelet", wavelet=w))
    for w in ("haar", "db2", "sym4"):
        for ndim, sep in ((1, False), (2, False), (2, True)):
            for mode in ALL_MODES:
                res.append(dict(kind="large", ndim=ndim, wavelet=w, mode=mode, orth="qr", sep=sep))
    return res


def cost(unit):
    return {"tree": 20, "subsets": 10, "large": 20, "wavelet": ref.flen(unit.get("wavelet", "haar")) / 6, "orders": 5}[
        unit["kind"]] * unit.get("ndim", 1) * (3 if unit.get("mode") == "boundary" else 1)


def orient(unit, rec):
    """Reference with the orientation that separable 2-D trees use."""
    ndim, w, mode, orth, sep = (unit[k] for k in ("ndim", "wavelet", "mode", "orth", "sep"))
    good = Bank(ndim, w, mode, orth, sep)
    if ndim == 1 or not sep:
        return good
    n = max(8, ref.flen(w) + 2)
    x = dense((n, n), F64, kind=9)
    h = make(ndim, x, w, mode, 1, orth, sep)["h"]
    bad = Bank(ndim, w, mode, orth, sep, swap=True)
    if np.abs(to_np(h) - bad.down(to_np(x))["h"]).max() < 1e-9:
        rec.known_finding("packet2-separable-hv")
        return bad
    return good


def run_tree(unit, rec):
    ndim, w, mode, orth, sep = (unit[k] for k in ("ndim", "wavelet", "mode", "orth", "sep"))
    bank = orient(unit, rec)
    letters = "".join(bank.names)
    f = ref.flen(w)
    lo = 1 if mode != "boundary" else max(2, f - 1)
    top = unit["top"] if mode != "boundary" else max(unit["top"], f + 4)
    if ndim == 2 and mode != "boundary":
        lo = 2
    for sides in itertools.product(range(lo, top + 1), repeat=ndim):
        auto = ref.max_level(min(sides), f)
        for ml in (None, 0, 1, 2, 3):
            lev = auto if ml is None else ml
            if lev > 3 or (ndim == 2 and lev > 2) or not servable(w, mode, sides, lev):
                continue
            if ndim == 2 and mode == "boundary" and not sep and lev == 2 and max(sides) > 7:
                continue
            key = (ndim, w, mode, orth, sep, sides, ml)
            rec.case(key, nontrivial=lev > 0)
            n = int(np.prod(sides))
            x = torch.cat([torch.eye(n, dtype=F64).reshape((n,) + sides), dense((2,) + sides, F64)])
            want = bank.tree(to_np(x), lev)
            scale = ref.gain(w) ** (2 * ndim * max(lev, 1))
            tol = 1e-11 * scale if mode != "boundary" else 1e-9
            # reading orders
            paths = [p for i in range(lev + 1) for p in ref.product_paths(i, letters)]
            for order in ("down", "up"):
                wp = make(ndim, x, w, mode, ml, orth, sep)
                rec.check(wp.maxlevel == lev, f"maxlevel {wp.maxlevel} instead of {lev}", key)
                for p in paths if order == "down" else paths[::-1]:
                    close(rec, wp[p], want[p], tol, f"node '{p}'", key)
                    rec.count("nodes")
            _, exc = call(lambda: wp[letters[0] * (lev + 1)])
            rec.check(isinstance(exc, KeyError), "reading below the maximum level must raise KeyError", key)
            # unmodified reconstruction
            shapes = {p: v.shape for p, v in want.items()}
            wp.reconstruct()
            back = to_np(wp[""])
            if lev:
                rec.check(all(b in (s, s + 1) for b, s in zip(back.shape[1:], sides)),
                          f"reconstruction of shape {back.shape}", key)
            close(rec, back[(Ellipsis,) + tuple(slice(0, s) for s in sides)], to_np(x),
                  tol * 10 + 4 * lev * ref.intrinsic_defect(w) * scale, "reconstruction", key)
            if not lev:
                continue
            # arbitrary leaves: one alone per batch item, all in item 0
            leaves = ref.product_paths(lev, letters)
            cnt = len(leaves)
            vals = {}
            for i, p in enumerate(leaves):
                v = to_np(dense((cnt + 1,) + shapes[p][1:], F64, kind=i)).copy()
                mask = (np.arange(cnt + 1) == i + 1) | (np.arange(cnt + 1) == 0)
                vals[p] = v * mask.reshape((-1,) + (1,) * ndim)
            wp = make(ndim, dense((cnt + 1,) + sides, F64, kind=5), w, mode, ml, orth, sep)
            wp.initialize(leaves)
            for p in leaves:
                wp[p] = torch.tensor(vals[p])
            wp.reconstruct()
            inner = bank.rebuild(vals, shapes, lev)
            for p, v in inner.items():
                close(rec, wp[p], v, tol * 10, f"node '{p}' rebuilt from arbitrary leaves", key)


def run_large(unit, rec):
    """Trees of long signals, large images and large batches."""
    ndim, w, mode, orth, sep = (unit[k] for k in ("ndim", "wavelet", "mode", "orth", "sep"))
    bank = orient(unit, rec)
    letters = "".join(bank.names)
    if ndim == 1:
        plans = [((), (n,), lev) for n, lev in ((64, 3), (100, 2), (129, 3), (257, 4), (512, 5), (1025, 6))]
        plans += [((b,), (17,), 2) for b in (70, 300, 1030)] + [((40, 30), (16,), 2)]
        if mode != "boundary":
            plans += [((), (4099,), 3), ((), (9001,), 2), ((), (20001,), 2), ((4100,), (9,), 1), ((3,), (65537,), 1)]
    elif mode != "boundary":
        plans = [((), (64, 65), 3), ((), (100, 37), 2), ((), (20, 301), 2), ((), (515, 9), 1), ((), (257, 260), 2),
                 ((70,), (9, 8), 1), ((300,), (8, 9), 1), ((1030,), (5, 6), 1), ((20, 30), (6, 6), 1)]
    elif sep:
        plans = [((), (64, 66), 2), ((), (100, 36), 2), ((), (20, 300), 1), ((70,), (8, 10), 1), ((300,), (10, 8), 1)]
    else:
        plans = [((), (20, 18), 1), ((70,), (8, 8), 1)] if w != "sym4" else []
    for batch, sides, lev in plans:
        if not servable(w, mode, sides, lev):
            continue
        key = (ndim, w, mode, sep, batch, sides, lev)
        rec.case(key)
        x = dense(batch + sides, F64, kind=3)
        want = bank.tree(to_np(x), lev)
        tol = 1e-11 * ref.gain(w) ** (2 * ndim * lev) if mode != "boundary" else 1e-9
        wp = make(ndim, x, w, mode, lev, orth, sep)
        for i in range(lev + 1):
            for p in ref.product_paths(i, letters):
                close(rec, wp[p], want[p], tol, f"node '{p}'", key)
                rec.count("nodes")
        wp.reconstruct()
        close(rec, to_np(wp[""])[(Ellipsis,) + tuple(slice(0, s) for s in sides)], to_np(x),
              tol * 10 + 4 * lev * ref.intrinsic_defect(w) * ref.gain(w) ** (2 * ndim * lev), "reconstruction", key)


def run_subsets(unit, rec):
    ndim, w, mode, orth, sep = (unit[k] for k in ("ndim", "wavelet", "mode", "orth", "sep"))
    bank = orient(unit, rec)
    letters = "".join(bank.names)
    f = ref.flen(w)
    lev = 3 if ndim == 1 else 2
    n = max(11 if ndim == 1 else 7, 4 * f - 3 if mode == "boundary" else 0)
    if ndim == 2 and mode == "boundary" and not sep:
        n = 7
    sides = (n, n + 1)[:ndim]
    if not servable(w, mode, sides, lev):
        lev -= 1
    if not servable(w, mode, sides, lev):
        return
    x = dense((2,) + sides, F64)
    base = bank.tree(to_np(x), lev)
    shapes = {p: v.shape for p, v in base.items()}
    leaves = ref.product_paths(lev, letters)
    inner = [p for i in range(1, lev) for p in ref.product_paths(i, letters)]
    change = [leaves[0], leaves[-1], leaves[len(leaves) // 2]]

    def fresh():
        wp = make(ndim, x, w, mode, lev, orth, sep)
        wp.initialize(leaves)
        vals = {p: base[p] for p in leaves}
        for i, p in enumerate(change):
            t = dense(shapes[p], F64, kind=20 + i)
            wp[p] = t
            vals[p] = to_np(t)
        return wp, vals

    subsets = list(itertools.chain.from_iterable(
        itertools.combinations(inner, k) for k in range(len(inner) + 1)))
    for sub in subsets:
        key = (ndim, w, mode, sep, sides, lev, "missing inner", sub)
        rec.case(key)
        wp, vals = fresh()
        for p in sub:
            del wp[p]
        wp.reconstruct()
        for p, v in bank.rebuild(vals, shapes, lev).items():
            close(rec, wp[p], v, 1e-9 * ref.gain(w) ** (2 * ndim * lev), f"node '{p}'", key)
    for leaf in leaves:
        key = (ndim, w, mode, sep, sides, lev, "missing leaf", leaf)
        rec.case(key)
        wp, vals = fresh()
        del wp[leaf]
        before = {p: wp[p] for p in wp}
        _, exc = call(wp.reconstruct)
        rec.check(isinstance(exc, KeyError), "a missing leaf must raise KeyError", key)
        rec.check(set(before) == set(wp), "a failed reconstruction changed the stored nodes", key)
        rec.check(leaf not in wp, "the missing leaf was computed", key)
    # leaves only, nothing else was ever read
    for sub in ((), inner[:1], inner):
        key = (ndim, w, mode, sep, sides, lev, "leaves only", tuple(sub))
        rec.case(key)
        wp = make(ndim, x, w, mode, lev, orth, sep)
        vals = {}
        for i, p in enumerate(leaves):
            t = dense(shapes[p], F64, kind=30 + i)
            wp[p], vals[p] = t, to_np(t)
        for p in sub:
            wp[p]
            # reading an absent inner node leaves the leaves alone
        for p in leaves:
            if len(p) > 0 and not np.array_equal(to_np(wp[p]), vals[p]):
                rec.fail(f"reading '{sub}' changed leaf '{p}'", key)
        wp.reconstruct()
        for p, v in bank.rebuild(vals, shapes, lev).items():
            close(rec, wp[p], v, 1e-9 * ref.gain(w) ** (2 * ndim * lev), f"node '{p}'", key)


def run_wavelet(unit, rec):
    """Every wavelet: all nodes of two levels."""
    w = unit["wavelet"]
    f = ref.flen(w)
    n = max(f + 3, 9)
    for mode in ref.MODES:
        for ndim in (1, 2):
            for sep in (False, True) if ndim == 2 and f <= 20 else (False,):
                for dt in ("f64", "f32"):
                    if ndim == 2 and (dt == "f32" or f > 40 and rec.tier == "quick"):
                        continue
                    dtype = DT[dt]
                    sides = (n, n + 1)[:ndim]
                    lev = 2 if ndim == 1 else 1
                    if not servable(w, mode, sides, lev):
                        continue
                    bank = orient(dict(ndim=ndim, wavelet=w, mode=mode, orth="qr", sep=sep), rec)
                    letters = "".join(bank.names)
                    key = (w, mode, ndim, sep, dt)
                    rec.case(key)
                    x = dense((2,) + sides, dtype)
                    if ndim == 1:
                        x = torch.cat([torch.eye(n, dtype=dtype), x])
                    wp = make(ndim, x, w, mode, lev, "qr", sep)
                    want = bank.tree(to_np(x).astype(np.float64), lev)
                    scale = 4 * ref.gain(w) ** (2 * ndim * lev)
                    for p in want:
                        close(rec, wp[p], want[p], 300 * EPS[dtype] * scale, f"node '{p}'", key)
                        rec.check(wp[p].dtype == dtype, "dtype", key)
                    shapes = {p: v.shape for p, v in want.items()}
                    vals = {}
                    for i, p in enumerate(ref.product_paths(lev, letters)):
                        t = dense(shapes[p], dtype, kind=i)
                        wp[p], vals[p] = t, to_np(t).astype(np.float64)
                    wp.reconstruct()
                    for p, v in bank.rebuild(vals, shapes, lev).items():
                        close(rec, wp[p], v, 600 * EPS[dtype] * scale, f"rebuilt node '{p}'", key)
    # other axes
    for axes in ((0,), (1,), (-2,)):
        x = dense((n, n + 1, 3), F64)
        if not servable(w, "zero", (n,), 1):
            continue
        key = (w, "axis", axes)
        rec.case(key)
        wp = make(1, x, w, "zero", 2, axes=axes)
        want = Bank(1, w, "zero").tree(np.moveaxis(to_np(x), axes[0], -1), 2)
        for p in want:
            close(rec, np.moveaxis(to_np(wp[p]), axes[0], -1), want[p], 1e-10 * ref.gain(w) ** 4, f"node '{p}'", key)
        wp.reconstruct()
        back = np.moveaxis(to_np(wp[""]), axes[0], -1)[..., : x.shape[axes[0]]]
        close(rec, back, np.moveaxis(to_np(x), axes[0], -1), 1e-9 * ref.gain(w) ** 4 + 10 * ref.intrinsic_defect(w),
              "reconstruction", key)


def run_orders(unit, rec):
    x1, x2 = dense((16,), F32), dense((16, 16), F32)
    one, two = ptwt.WaveletPacket(x1, "haar"), ptwt.WaveletPacket2D(x2, "haar")
    for level in range(0, 13 if rec.tier == "quick" else 18):
        key = ("orders", 1, level)
        rec.case(key)
        for obj in (ptwt.WaveletPacket, one):
            gray = ref.gray_paths(level, "ad")
            rec.check(obj.get_level(level) == gray, "frequency order", key)
            rec.check(obj.get_level(level, "freq") == gray, "frequency order", key)
            rec.check(obj.get_level(level, order="natural") == ref.product_paths(level, "ad"), "natural order", key)
    for level in range(0, 8 if rec.tier == "quick" else 10):
        key = ("orders", 2, level)
        rec.case(key)
        for obj in (ptwt.WaveletPacket2D, two):
            nat = ref.product_paths(level, "ahvd")
            rec.check(obj.get_level(level, "natural") == nat, "natural order", key)
            rec.check(obj.get_natural_order(level) == nat, "natural order", key)
            if level == 0:
                continue
            # letters by (first axis, second axis) filter: a=ll, h=hl, v=lh, d=hh
            name = {("l", "l"): "a", ("h", "l"): "h", ("l", "h"): "v", ("h", "h"): "d"}
            gray = ref.gray_paths(level, "lh")
            want = [["".join(name[p] for p in zip(r, c)) for c in gray] for r in gray]
            rec.check(obj.get_level(level) == want, "frequency order", key)
            rec.check(obj.get_level(level, order="freq") == want, "frequency order", key)
            rec.check(obj.get_freq_order(level) == want, "frequency order", key)
    for bad in ("", "Freq", "time", None, 3, "natural ", "frequency"):
        for obj in (ptwt.WaveletPacket, ptwt.WaveletPacket2D):
            key = ("order", repr(bad), obj.__name__)
            rec.case(key)
            _, exc = call(obj.get_level, 2, bad)
            rec.check(isinstance(exc, ValueError), "an unknown order must raise ValueError", key)
    # the returned lists belong to the caller
    a = ptwt.WaveletPacket.get_level(2)
    a.append("x")
    b = ptwt.WaveletPacket2D.get_level(2)
    b[0].append("x")
    rec.check(ptwt.WaveletPacket.get_level(2) == ref.gray_paths(2, "ad"), "changed by the caller", "lists")
    rec.check(len(ptwt.WaveletPacket2D.get_level(2)[0]) == 4, "changed by the caller", "lists")


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = NAMES2
