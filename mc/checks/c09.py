"""C09: 2-D and 3-D boundary-wavelet transforms are orthogonal and invertible."""
import functools
import itertools

import numpy as np
import torch

import ptwt

from .. import boundary, ref
from ..util import DT, EPS, F64, call, close, dense, to_np

LEVEL = "exploration"
RULE = (
    "every size pair (triple) of a square (cube) of sides x level count (also automatic and "
    "excessive) x padding mode x wavelet x orthogonalization x (non-)separable, with every "
    "unit image as input and every unit coefficient as input of the inverse, compared with "
    "the composition of the one-level matrices; non-separable matrices themselves with the "
    "2-D filters and for orthogonality; non-trivial: at least one level is computed"
)
ASSUMPTIONS = ["the 1-D boundary matrices (decided by C08)"]

SEP = {"haar": (2, 11), "db2": (3, 12), "db3": (5, 13), "sym4": (8, 15), "coif1": (6, 11)}
NONSEP = {"haar": (2, 9), "db2": (3, 9), "db3": (5, 9), "sym4": (7, 9)}
NONSEP_GS = {"haar": (2, 7), "db2": (4, 6)}
THREE = {"haar": (2, 7), "db2": (3, 8), "db3": (6, 9)}
WIDER = {"sep": 6, "nonsep": 3, "three": 2}


def units(tier, seed):
    extra = WIDER if tier != "quick" else dict.fromkeys(WIDER, 0)
    res = []
    for kind, table, orth in (("sep", SEP, "qr"), ("sep", {"haar": (2, 6), "db2": (4, 9)}, "gramschmidt"),
                              ("nonsep", NONSEP, "qr"), ("nonsep", NONSEP_GS, "gramschmidt"),
                              ("three", THREE, "qr"), ("three", {"haar": (2, 4), "db2": (4, 6)}, "gramschmidt")):
        for w, (lo, hi) in table.items():
            hi += extra[kind] if orth == "qr" else 0
            for mode in ref.MODES:
                for first in range(lo, hi + 1):
                    res.append(dict(kind=kind, wavelet=w, mode=mode, orth=orth, dtype="f64", first=first, lo=lo, hi=hi))
    for w in ("haar", "db2"):
        for mode in ref.MODES:
            for first in (5, 6, 8):
                res.append(dict(kind="sep", wavelet=w, mode=mode, orth="qr", dtype="f32", first=first, lo=4, hi=9))
                res.append(dict(kind="three", wavelet=w, mode=mode, orth="qr", dtype="f32", first=first, lo=5, hi=7))
                if w == "haar" or mode in ("zero", "reflect"):
                    res.append(dict(kind="nonsep", wavelet=w, mode=mode, orth="qr", dtype="f32", first=first, lo=4, hi=8))
    for w, (lo, hi) in NONSEP.items():
        hi += 2 if tier != "quick" else 0
        for h in range(lo + lo % 2, hi + 1, 2):
            for orth in ("qr", "gramschmidt"):
                res.append(dict(kind="matrix2", wavelet=w, orth=orth, h=h, lo=lo + lo % 2,
                                hi=hi if orth == "qr" else min(hi, NONSEP_GS.get(w, (0, 8))[1])))
    for w in ("haar", "db2", "sym4", "coif3"):
        res.append(dict(kind="long", wavelet=w))
    return res


def cost(unit):
    return {"sep": 3, "nonsep": 6, "three": 5, "matrix2": 20, "long": 8}[unit["kind"]] * (
        3 if unit.get("orth") == "gramschmidt" else 1)


def ax(m, x, axis):
    return np.moveaxis(np.tensordot(m, x, axes=(1, axis)), 0, axis)


# ------------------------------------------------- reference compositions
def split(y, ndim):
    """Subbands of a one-level result, key letters in axis order."""
    res = {}
    for key in itertools.product("ad", repeat=ndim):
        sl = [slice(None)] * (y.ndim - ndim)
        for pos, k in enumerate(key):
            m = y.shape[y.ndim - ndim + pos] // 2
            sl.append(slice(0, m) if k == "a" else slice(m, 2 * m))
        res["".join(key)] = y[tuple(sl)]
    return res


def join(parts, ndim):
    a = next(iter(parts.values()))
    nd = a.ndim
    shape = list(a.shape)
    for pos in range(ndim):
        shape[nd - ndim + pos] *= 2
    y = np.zeros(shape)
    for key, v in parts.items():
        sl = [slice(None)] * (nd - ndim)
        for pos, k in enumerate(key):
            m = v.shape[nd - ndim + pos]
            sl.append(slice(0, m) if k == "a" else slice(m, 2 * m))
        y[tuple(sl)] = v
    return y


class Separable:
    def __init__(self, w, orth, dt, ndim):
        self.w, self.orth, self.dt, self.ndim = w, orth, dt, ndim

    def one(self, x):
        for pos in range(self.ndim):
            axis = x.ndim - self.ndim + pos
            x = ax(boundary.code_matrix(self.w, x.shape[axis], self.orth, self.dt), x, axis)
        return split(x, self.ndim)

    def one_inv(self, parts):
        x = join(parts, self.ndim)
        for pos in range(self.ndim):
            axis = x.ndim - self.ndim + pos
            x = ax(boundary.code_matrix(self.w, x.shape[axis], self.orth, self.dt).T, x, axis)
        return x


NAMES2 = ("aa", "da", "ad", "dd")  # a, horizontal, vertical, diagonal


@functools.lru_cache(maxsize=None)
def matrix2(w, h, wd, orth, dt):
    """Column-major matrix of the one-level non-separable transform."""
    eye = torch.eye(h * wd, dtype=DT[dt]).reshape(h * wd, wd, h).transpose(-2, -1)
    a, det = ptwt.MatrixWavedec2(w, 1, orthogonalization=orth, separable=False)(eye)
    rows = [to_np(t.transpose(-2, -1)).reshape(h * wd, -1).T for t in (a, *det)]
    m = np.concatenate(rows).astype(np.float64)
    assert m.shape == (h * wd, h * wd), m.shape
    m.setflags(write=False)
    return m


class NonSeparable:
    ndim = 2

    def __init__(self, w, orth, dt):
        self.w, self.orth, self.dt = w, orth, dt

    def one(self, x):
        h, wd = x.shape[-2:]
        v = np.swapaxes(x, -2, -1).reshape(x.shape[:-2] + (-1,))
        y = v @ matrix2(self.w, h, wd, self.orth, self.dt).T
        res = {}
        for key, p in zip(NAMES2, np.split(y, 4, axis=-1)):
            res[key] = np.swapaxes(p.reshape(x.shape[:-2] + (wd // 2, h // 2)), -2, -1)
        return res

    def one_inv(self, parts):
        h, wd = (2 * s for s in parts["aa"].shape[-2:])
        v = [np.swapaxes(parts[k], -2, -1).reshape(parts[k].shape[:-2] + (-1,)) for k in NAMES2]
        y = np.concatenate(v, -1) @ matrix2(self.w, h, wd, self.orth, self.dt)
        return np.swapaxes(y.reshape(y.shape[:-1] + (wd, h)), -2, -1)


def fit_levels(sides, f, asked):
    done = 0
    cur = list(sides)
    while done < asked and min(cur) >= f:
        cur = [(s + 1) // 2 for s in cur]
        done += 1
    return done


def compose(model, x, f, mode, asked):
    nd = model.ndim
    details = []
    padded = set()
    for lev in range(asked):
        if min(x.shape[-nd:]) < f:
            break
        for pos in range(nd):
            if x.shape[x.ndim - nd + pos] % 2:
                x = boundary.extend(x, mode, x.ndim - nd + pos)
                padded.add(lev)
        parts = model.one(x)
        x = parts.pop("a" * nd)
        details.append(parts)
    return x, details[::-1], padded


def compose_inv(model, x, details):
    nd = model.ndim
    for parts in details:
        sides = parts["d" * nd].shape[-nd:]
        x = x[(Ellipsis,) + tuple(slice(0, s) for s in sides)]
        x = model.one_inv({**parts, "a" * nd: x})
    return x


# ------------------------------------------------------------------- runs
def basis(sides, dtype):
    n = int(np.prod(sides))
    return torch.cat([torch.eye(n, dtype=dtype).reshape((n,) + tuple(sides)), dense((2,) + tuple(sides), dtype)])


def run_sep(unit, rec):
    for second in range(unit["lo"], unit["hi"] + 1):
        explore2(unit, rec, (unit["first"], second), Separable(unit["wavelet"], unit["orth"], unit["dtype"], 2), True)


def run_nonsep(unit, rec):
    for second in range(unit["lo"], unit["hi"] + 1):
        explore2(unit, rec, (unit["first"], second), NonSeparable(unit["wavelet"], unit["orth"], unit["dtype"]), False)


def explore2(unit, rec, sides, model, separable):
    w, mode, orth, dt = (unit[k] for k in ("wavelet", "mode", "orth", "dtype"))
    dtype = DT[dt]
    f = ref.flen(w)
    tol = 2e-9 if dt == "f64" else 3e-4
    fit = fit_levels(sides, f, 99)
    auto = ref.max_level(min(sides), f)
    x = basis(sides, dtype)
    xn = to_np(x).astype(np.float64)
    kw = dict(orthogonalization=orth, separable=separable)
    for level in [None] + list(range(1, fit + 3)):
        asked = auto if level is None else level
        done = fit_levels(sides, f, asked)
        key = (w, mode, orth, dt, "sep" if separable else "ns", sides, level)
        rec.case(key, nontrivial=done > 0)
        dec = ptwt.MatrixWavedec2(w, level, odd_coeff_padding_mode=mode, **kw)
        if not separable:
            _, exc = call(lambda: dec.sparse_fwt_operator)
            rec.check(isinstance(exc, ValueError), "operator without a call must raise ValueError", key)
        got = dec(x)
        rec.check(isinstance(got, tuple), "a tuple is returned", key)
        rec.check(len(got) == done + 1, f"{len(got) - 1} levels instead of {done}", key)
        approx, details, padded = compose(model, xn, f, mode, asked)
        close(rec, got[0], approx, tol, "approximation", key)
        swapped = None
        for i, (g, v) in enumerate(zip(got[1:], details)):
            rec.check(isinstance(g, tuple) and hasattr(g, "_fields") and len(g) == 3, "detail tuple", key)
            rec.check(all(t.dtype == dtype for t in g), "dtype", key)
            if separable and swapped is None:
                shape_ok = tuple(g[0].shape) == v["da"].shape
                swapped = not (shape_ok and np.abs(to_np(g[0]) - v["da"]).max() <= tol)
            hor, ver = ("ad", "da") if swapped else ("da", "ad")
            close(rec, g[0], v[hor], tol, f"horizontal details {i}", key)
            close(rec, g[1], v[ver], tol, f"vertical details {i}", key)
            close(rec, g[2], v["dd"], tol, f"diagonal details {i}", key)
        if swapped:
            rec.known_finding("matrix2-separable-hv")
        inv = ptwt.MatrixWaverec2(w, **kw)
        if separable:
            for get in (lambda: dec.sparse_fwt_operator, lambda: inv.sparse_ifwt_operator):
                _, exc = call(get)
                rec.check(isinstance(exc, NotImplementedError), "separable transforms have no operator", key)
        else:
            operator2(rec, key, lambda: dec.sparse_fwt_operator, done, padded, sides, model, mode, f, tol, False)
        if done == 0:
            back, exc = call(inv, got)
            if exc is None:
                close(rec, back, xn, tol, "inverse of zero levels", key)
            continue
        order = ("ad", "da", "dd") if swapped else ("da", "ad", "dd")
        back = inv(got)
        even = tuple(s + s % 2 for s in sides)
        rec.check(tuple(back.shape[-2:]) == even, f"reconstruction of shape {tuple(back.shape)}", key)
        close(rec, back[..., : sides[0], : sides[1]], xn, tol, "reconstruction", key)
        if not separable:
            operator2(rec, key, lambda: inv.sparse_ifwt_operator, done, padded - {0}, sides, model, mode, f, tol, True)
        # arbitrary coefficients: every unit coefficient
        shapes = [got[0].shape[1:]] + [t.shape[1:] for g in got[1:] for t in g]
        tot = sum(int(np.prod(s)) for s in shapes)
        arb = np.concatenate([np.eye(tot), to_np(dense((2, tot), F64, kind=3))])
        parts = [p.reshape((-1,) + tuple(s)) for p, s in zip(
            np.split(arb, np.cumsum([int(np.prod(s)) for s in shapes])[:-1], axis=-1), shapes)]
        dets = [dict(zip(order, parts[1 + 3 * i: 4 + 3 * i])) for i in range(done)]
        t = [torch.tensor(p, dtype=dtype) for p in parts]
        coeffs = (t[0],) + tuple(ptwt.WaveletDetailTuple2d(*t[1 + 3 * i: 4 + 3 * i]) for i in range(done))
        close(rec, inv(coeffs), compose_inv(model, parts[0], dets), tol, "inverse of arbitrary coefficients", key)
        rec.count("unit_coefficients", tot)
    for level in (0, -1):
        _, exc = call(ptwt.MatrixWavedec2(w, level, odd_coeff_padding_mode=mode, **kw), x)
        rec.check(isinstance(exc, ValueError), "a level below one must raise ValueError", (w, sides, level))


def operator2(rec, key, get, done, padded, sides, model, mode, f, tol, inverse):
    op, exc = call(get)
    if done == 0:
        rec.check(isinstance(exc, ValueError), "no level, no operator: ValueError", key)
    elif padded and done > 1:
        rec.check(isinstance(exc, NotImplementedError), "padded levels have no operator", key)
    else:
        if exc is not None:
            raise exc
        h, wd = (s + s % 2 for s in sides)
        n = h * wd
        eye = np.swapaxes(np.eye(n).reshape(n, wd, h), -2, -1)
        a, dets, _ = compose(model, eye, f, mode, done)
        cols = [a] + [d[k] for d in dets for k in NAMES2[1:]]
        m = np.concatenate([np.swapaxes(c, -2, -1).reshape(n, -1) for c in cols], -1).T
        if inverse:
            m = m.T
        close(rec, op.to_dense(), m, tol, "published operator", key)
        rec.count("operators")


def run_matrix2(unit, rec):
    """The non-separable one-level matrix itself."""
    w, orth, h = unit["wavelet"], unit["orth"], unit["h"]
    f = ref.flen(w)
    lo, hi = ref.bank(w)[:2]
    for wd in range(unit["lo"], unit["hi"] + 1, 2):
        if orth != "qr" and f > 4 and h * wd > 36 and rec.tier == "quick":
            continue
        if orth != "qr" and h * wd > 80:
            continue
        for dt in ("f64", "f32"):
            key = (w, orth, dt, "matrix", h, wd)
            m = matrix2(w, h, wd, orth, dt)
            cond = row_condition(w, h, wd)
            tol = max(1e-10 if dt == "f64" else 1e-5, 100 * EPS[DT[dt]] * cond)
            if tol > 1e-2:
                rec.count("too_ill_conditioned")
                continue
            rec.case(key)
            close(rec, m @ m.T, np.eye(h * wd), tol, "M M^T", key)
            q = h * wd // 4
            etol = 100 * EPS[DT[dt]]
            for s, (fy, fx) in enumerate(((lo, lo), (hi, lo), (lo, hi), (hi, hi))):
                ay, full_y = ref.boundary_raw(fy, h)
                ax_, full_x = ref.boundary_raw(fx, wd)
                for ky, kx in itertools.product(np.flatnonzero(full_y), np.flatnonzero(full_x)):
                    row = m[s * q + kx * (h // 2) + ky].reshape(wd, h).T
                    close(rec, row, np.outer(ay[ky], ax_[kx]), etol, f"row of the 2-D filter {NAMES2[s]} at {ky, kx}", key)
                    rec.count("interior_rows")
            # inverse: the transpose
            eye = torch.eye(h * wd, dtype=DT[dt])
            parts = [p.reshape(-1, wd // 2, h // 2).transpose(-2, -1) for p in torch.split(eye, q, dim=-1)]
            inv = ptwt.MatrixWaverec2(w, orthogonalization=orth, separable=False)
            back = inv((parts[0], ptwt.WaveletDetailTuple2d(*parts[1:])))
            s2 = to_np(back.transpose(-2, -1)).reshape(h * wd, -1).T.astype(np.float64)
            close(rec, s2, m.T, tol, "matrix of MatrixWaverec2", key)


@functools.lru_cache(maxsize=None)
def row_condition(w, h, wd):
    rows = []
    lo, hi = ref.bank(w)[:2]
    for fy, fx in ((lo, lo), (hi, lo), (lo, hi), (hi, hi)):
        ay, full_y = ref.boundary_raw(fy, h)
        ax_, full_x = ref.boundary_raw(fx, wd)
        keep = ~np.outer(full_x, full_y).reshape(-1)
        rows.append(np.kron(ax_, ay)[keep])
    t = np.concatenate(rows)
    return float(np.linalg.cond(t)) if t.size else 1.0


def run_three(unit, rec):
    w, mode, orth, dt = (unit[k] for k in ("wavelet", "mode", "orth", "dtype"))
    dtype = DT[dt]
    f = ref.flen(w)
    tol = 2e-9 if dt == "f64" else 3e-4
    model = Separable(w, orth, dt, 3)
    for rest in itertools.product(range(unit["lo"], unit["hi"] + 1), repeat=2):
        sides = (unit["first"],) + rest
        fit = fit_levels(sides, f, 99)
        auto = ref.max_level(min(sides), f)
        n = int(np.prod(sides))
        x = basis(sides, dtype) if n <= 130 or rec.tier != "quick" else axis_basis(sides, dtype)
        xn = to_np(x).astype(np.float64)
        for level in [None] + list(range(1, fit + 2)):
            asked = auto if level is None else level
            done = fit_levels(sides, f, asked)
            key = (w, mode, orth, dt, sides, level)
            rec.case(key, nontrivial=done > 0)
            got = ptwt.MatrixWavedec3(w, level, orthogonalization=orth, odd_coeff_padding_mode=mode)(x)
            rec.check(isinstance(got, tuple), "a tuple is returned", key)
            rec.check(len(got) == done + 1, f"{len(got) - 1} levels instead of {done}", key)
            approx, details, _ = compose(model, xn, f, mode, asked)
            close(rec, got[0], approx, tol, "approximation", key)
            for i, (g, v) in enumerate(zip(got[1:], details)):
                rec.check(sorted(g) == sorted(v), f"keys {sorted(g)}", key)
                for k in v:
                    rec.check(g[k].dtype == dtype, "dtype", key)
                    close(rec, g[k], v[k], tol, f"details {i} {k}", key)
            if done == 0:
                continue
            inv = ptwt.MatrixWaverec3(w, orthogonalization=orth)
            back = inv(got)
            rec.check(tuple(back.shape[-3:]) == tuple(s + s % 2 for s in sides),
                      f"reconstruction of shape {tuple(back.shape)}", key)
            close(rec, back[(Ellipsis,) + tuple(slice(0, s) for s in sides)], xn, tol, "reconstruction", key)
            # arbitrary coefficients: a separate dense set for every subband, alone and together
            arb_a = to_np(dense((8 * done + 1,) + got[0].shape[1:], F64, kind=2)).copy()
            arb = []
            for i, g in enumerate(got[1:]):
                arb.append({k: to_np(dense((8 * done + 1,) + g[k].shape[1:], F64, kind=3 + j + 7 * i)).copy()
                            for j, k in enumerate(sorted(g))})
            # batch item 0: everything; item 1+..: one subband alone
            item = 1
            arb_a[1:] *= (np.arange(1, 8 * done + 1) == item).reshape(-1, 1, 1, 1)
            for d in arb:
                for k in sorted(d):
                    item += 1
                    d[k][1:] *= (np.arange(1, 8 * done + 1) == item).reshape(-1, 1, 1, 1)
            want = compose_inv(model, arb_a, arb)
            tc = (torch.tensor(arb_a, dtype=dtype),) + tuple(
                {k: torch.tensor(v, dtype=dtype) for k, v in d.items()} for d in arb)
            close(rec, inv(tc), want, tol * 5, "inverse of arbitrary coefficients", key)
            # the order of the dictionary entries does not matter
            rv = (tc[0],) + tuple(dict(reversed(list(d.items()))) for d in tc[1:])
            close(rec, inv(rv), want, tol * 5, "inverse of reversed dictionaries", key)
        for level in (0, -1):
            _, exc = call(ptwt.MatrixWavedec3(w, level, orthogonalization=orth), x)
            rec.check(isinstance(exc, ValueError), "a level below one must raise ValueError", (w, sides, level))


def axis_basis(sides, dtype):
    """Unit signals along each axis times dense signals along the others."""
    res = [dense((2,) + tuple(sides), dtype)]
    for pos in range(3):
        n = sides[pos]
        shape = [n, 1, 1, 1]
        shape[1 + pos] = n
        res.append(torch.eye(n, dtype=dtype).reshape(shape) * dense(
            tuple(1 if i == pos else s for i, s in enumerate(sides)), dtype, kind=pos))
    return torch.cat(res)


def run_long(unit, rec):
    """Larger images: invertible, energy kept."""
    w = unit["wavelet"]
    f = ref.flen(w)
    batches = [((2,), s) for s in ((32, 48), (33, 47), (64, 31), (50, 50), (63, 64), (130, 129), (20, 301), (515, 40), (260, 257))]
    m = max(f, 4)
    batches += [(b, (m + 1, m)) for b in ((70,), (300,), (1030,), (40, 60), (4100,))] + [((35,), (64, 66))]
    for batch, sides in batches:
        for mode in ref.MODES if max(sides) < 100 and len(batch) == 1 and batch[0] < 100 else ref.MODES[1:2]:
            for level in (1, 2, None) if batch == (2,) else (1,):
                x = dense(batch + sides, F64)
                key = (w, "long", batch, sides, mode, level)
                rec.case(key)
                got = ptwt.MatrixWavedec2(w, level, odd_coeff_padding_mode=mode)(x)
                asked = ref.max_level(min(sides), f) if level is None else level
                done = fit_levels(sides, f, asked)
                rec.check(len(got) == done + 1, f"{len(got) - 1} levels instead of {done}", key)
                model = Separable(w, "qr", "f64", 2)
                a, dets, _ = compose(model, to_np(x), f, mode, asked)
                close(rec, got[0], a, 1e-8, "approximation", key)
                for g, v in zip(got[1:], dets):
                    close(rec, g[2], v["dd"], 1e-8, "diagonal details", key)
                    # their order is decided on smaller images
                    pair = (g[0], g[1])
                    if tuple(g[0].shape) != v["da"].shape or np.abs(to_np(g[0]) - v["da"]).max() > 1e-8:
                        pair = (g[1], g[0])
                    close(rec, pair[0], v["da"], 1e-8, "horizontal or vertical details", key)
                    close(rec, pair[1], v["ad"], 1e-8, "vertical or horizontal details", key)
                if done:
                    back = ptwt.MatrixWaverec2(w)(got)
                    close(rec, back[..., : sides[0], : sides[1]], to_np(x), 1e-8, "reconstruction", key)
    if f > 8:
        return
    large = [((2,), s) for s in ((17, 18, 20), (40, 9, 8), (8, 41, 9), (9, 8, 40), (70, 8, 9), (33, 32, 34))]
    large += [(b, (f + 1, f, f)) for b in ((70,), (300,), (20, 13))] + ([((1030,), (3, 2, 4))] if f == 2 else [])
    for batch, sides in large:
        for level in (1, None) if batch == (2,) else (1,):
            x = dense(batch + sides, F64)
            key = (w, "long", batch, sides, level)
            rec.case(key)
            got = ptwt.MatrixWavedec3(w, level, odd_coeff_padding_mode="reflect")(x)
            asked = ref.max_level(min(sides), f) if level is None else level
            a, dets, _ = compose(Separable(w, "qr", "f64", 3), to_np(x), f, "reflect", asked)
            rec.check(len(got) == len(dets) + 1, f"{len(got) - 1} levels instead of {len(dets)}", key)
            close(rec, got[0], a, 1e-8, "approximation", key)
            for g, v in zip(got[1:], dets):
                rec.check(sorted(g) == sorted(v), f"keys {sorted(g)}", key)
                for k in v:
                    close(rec, g[k], v[k], 1e-8, f"details {k}", key)
            if not dets:
                continue
            back = ptwt.MatrixWaverec3(w)(got)
            close(rec, back[(Ellipsis,) + tuple(slice(0, s) for s in sides)], to_np(x), 1e-8, "reconstruction", key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
