"""C08: the 1-D boundary-wavelet transform is an orthogonal filter bank."""
import itertools

import numpy as np
import torch

import ptwt

from .. import boundary, ref
from ..util import DT, EPS, F64, call, close, dense, to_np

LEVEL = "exploration"
RULE = (
    "unit 'matrix': every orthogonal wavelet x orthogonalization x dtype x even length, "
    "the complete matrices (every unit signal and unit coefficient) of MatrixWavedec and "
    "MatrixWaverec and their published operators, compared with the textbook rows; "
    "unit 'compose': every length (even, odd, too short) x level count (also automatic and "
    "excessive) x padding mode x wavelet, every unit signal and every unit coefficient, "
    "compared with the composition of the one-level matrices; non-trivial: at least one "
    "level is computed"
)
ASSUMPTIONS = [
    "double precision filters of PyWavelets",
    "wavelets whose truncated filters are too ill-conditioned for double precision "
    "(coif8 and longer, dmey) are outside the checked set",
]

QR = ("haar",) + tuple(f"db{i}" for i in range(1, 13)) + tuple(
    f"sym{i}" for i in range(2, 21)) + tuple(f"coif{i}" for i in range(1, 8))
SMALL = ("haar", "db2", "db3", "sym4", "coif1", "db5")
COMPOSE = ("haar", "db2", "db3", "sym4", "coif1", "sym5")


def units(tier, seed):
    res = []
    for w in QR:
        for dt in ("f64", "f32"):
            res.append(dict(kind="matrix", wavelet=w, orth="qr", dtype=dt))
            res.append(dict(kind="matrix", wavelet=w, orth="gramschmidt", dtype=dt))
    for w in COMPOSE + (("db8", "coif3") if tier != "quick" else ("db7",)):
        for mode in ref.MODES:
            for part in range(2):
                res.append(dict(kind="compose", wavelet=w, mode=mode, orth="qr", dtype="f64", part=part))
    for w in ("haar", "db2", "sym4"):
        for mode in ref.MODES:
            res.append(dict(kind="compose", wavelet=w, mode=mode, orth="gramschmidt", dtype="f64", part=0))
            res.append(dict(kind="compose", wavelet=w, mode=mode, orth="qr", dtype="f32", part=1))
    for w in ("haar", "db2", "db4", "sym8"):
        res.append(dict(kind="long", wavelet=w))
    return res


def cost(unit):
    if unit["kind"] == "matrix":
        f = ref.flen(unit["wavelet"])
        return f * f * (8 if unit["orth"] != "qr" else 1)
    return 3000


def sizes(f, tier, orth):
    top = 2 * f + 6 if f <= 20 else f + 8
    if orth != "qr" and f > 10:
        top = f + 4
    if tier != "quick":
        top = 3 * f + 10 if orth == "qr" or f <= 10 else 2 * f + 2
    res = list(range(f, top + 1, 2))
    if orth == "qr":
        res.append(2 * f + 32)
    return res


def run_matrix(unit, rec):
    w, orth, dt = unit["wavelet"], unit["orth"], unit["dtype"]
    dtype = DT[dt]
    f = ref.flen(w)
    eps = EPS[dtype]
    for n in sizes(f, rec.tier, orth):
        key = (w, orth, dt, n)
        rec.case(key)
        want, full = ref.boundary_matrix(w, n)
        cond = row_condition(w, n)
        # rounding errors of nearly dependent truncated filters
        base = max(5e-10 if dt == "f64" else 2e-5, 200 * eps * cond)
        if base > 1e-2:
            rec.count("too_ill_conditioned")
            continue
        dec = ptwt.MatrixWavedec(w, 1, orthogonalization=orth)
        _, exc = call(lambda: dec.sparse_fwt_operator)
        rec.check(isinstance(exc, ValueError), "operator without a call must raise ValueError", key)
        res = dec(torch.eye(n, dtype=dtype))
        rec.check(isinstance(res, list) and len(res) == 2, "a one-level result has two tensors", key)
        a = np.concatenate([to_np(r).T for r in res]).astype(np.float64)
        rec.check(a.shape == (n, n), f"matrix of shape {a.shape}", key)
        close(rec, a[full], want[full], 50 * eps, "complete rows", key)
        close(rec, a @ a.T, np.eye(n), base, "A A^T", key)
        close(rec, a.T @ a, np.eye(n), base, "A^T A", key)
        # the truncated rows, up to their sign
        tol = max(base, 200 * eps * cond)
        if tol < 1e-2:
            for r in np.flatnonzero(~full):
                sgn = 1.0 if a[r] @ want[r] >= 0 else -1.0
                close(rec, sgn * a[r], want[r], tol, f"truncated row {r}", key)
                rec.count("truncated_rows")
        else:
            rec.count("truncated_rows_too_ill_conditioned")
        op = dec.sparse_fwt_operator
        rec.check(op.dtype == dtype, "dtype of the operator", key)
        close(rec, op.to_dense(), a, 20 * eps, "sparse_fwt_operator", key)
        # inverse: its matrix is the transpose
        eye = torch.eye(n, dtype=dtype)
        inv = ptwt.MatrixWaverec(w, orthogonalization=orth)
        _, exc = call(lambda: inv.sparse_ifwt_operator)
        rec.check(isinstance(exc, ValueError), "operator without a call must raise ValueError", key)
        s = to_np(inv([eye[:, : n // 2], eye[:, n // 2:]])).T.astype(np.float64)
        close(rec, s, a.T, base, "matrix of MatrixWaverec", key)
        op = inv.sparse_ifwt_operator
        rec.check(op.dtype == dtype, "dtype of the operator", key)
        close(rec, op.to_dense(), s, 20 * eps, "sparse_ifwt_operator", key)
        rec.count("matrix_entries", 2 * n * n)


_COND = {}


def row_condition(w, n):
    """How much the orthonormalization amplifies rounding errors."""
    if (w, n) not in _COND:
        lo, hi = ref.bank(w)[:2]
        al, fl = ref.boundary_raw(lo, n)
        ah, fh = ref.boundary_raw(hi, n)
        t = np.concatenate([al, ah])[~np.concatenate([fl, fh])]
        _COND[w, n] = float(np.linalg.cond(t)) if t.size else 1.0
    return _COND[w, n]


def run_compose(unit, rec):
    w, mode, orth, dt = unit["wavelet"], unit["mode"], unit["orth"], unit["dtype"]
    dtype = DT[dt]
    f = ref.flen(w)
    tol = 1e-9 if dt == "f64" else 3e-4
    quick = rec.tier == "quick"
    top = max(4 * f + 6, 26)
    if f > 12:
        top = 3 * f
    if orth != "qr":
        top = 3 * f
    if not quick:
        top = int(1.6 * top)
    for n in range(2, top + 1):
        if n % 2 != unit["part"] and orth == "qr" and dt == "f64":
            continue
        ne = n + n % 2
        fit = boundary.levels(n, f, 99)
        auto = ref.max_level(ne, f)
        for level in [None] + list(range(1, fit + 3)):
            asked = auto if level is None else level
            done = boundary.levels(n, f, asked)
            if done == 0 and n % 2:
                continue  # nothing to extend the input for
            key = (w, mode, orth, dt, n, level)
            rec.case(key, nontrivial=done > 0)
            x = torch.cat([torch.eye(n, dtype=dtype), dense((2, n), dtype)])
            dec = ptwt.MatrixWavedec(w, level, orthogonalization=orth, odd_coeff_padding_mode=mode)
            got = dec(x)
            want = boundary.forward(w, to_np(x).astype(np.float64), mode, asked, orth, dt)
            rec.check(isinstance(got, list), "a list is returned", key)
            rec.check(len(got) == done + 1, f"{len(got)} tensors for {done} levels", key)
            for i, (g, v) in enumerate(zip(got, want)):
                rec.check(g.dtype == dtype, "dtype", key)
                close(rec, g, v, tol, f"coefficients {i}", key)
            # operators
            padded = boundary.any_padding(n, f, done)
            check_operator(rec, key, lambda: dec.sparse_fwt_operator, done, padded,
                           lambda: np.concatenate(boundary.forward(
                               w, np.eye(ne), mode, done, orth, dt), -1).T, tol)
            # inverse of the result
            inv = ptwt.MatrixWaverec(w, orthogonalization=orth)
            if done == 0:
                back, exc = call(inv, got)
                if exc is None:
                    close(rec, back, to_np(x), tol, "inverse of zero levels", key)
                continue
            back = inv(got)
            rec.check(back.shape[-1] == ne and torch.equal(back[..., :0], back[..., :0]),
                      f"reconstructed length {back.shape[-1]} of {n}", key)
            close(rec, back[..., :n], to_np(x), tol, "reconstruction", key)
            # inverse of every unit coefficient and of arbitrary coefficients
            lens = [g.shape[-1] for g in got]
            tot = sum(lens)
            arb = np.concatenate([np.eye(tot), to_np(dense((2, tot), F64, kind=3))])
            parts = np.split(arb, np.cumsum(lens)[:-1], axis=-1)
            gotb = inv([torch.tensor(p, dtype=dtype) for p in parts])
            close(rec, gotb, boundary.inverse(w, parts, orth, dt), tol, "inverse of arbitrary coefficients", key)
            gott = inv(tuple(torch.tensor(p, dtype=dtype) for p in parts))
            close(rec, gott, to_np(gotb), 0.0, "tuple of coefficients", key)
            check_operator(rec, key, lambda: inv.sparse_ifwt_operator, done, padded,
                           lambda: boundary.inverse(w, np.split(np.eye(tot), np.cumsum(lens)[:-1], axis=-1), orth, dt).T,
                           tol)
        for level in (0, -1, -3):
            _, exc = call(ptwt.MatrixWavedec(w, level, orthogonalization=orth, odd_coeff_padding_mode=mode),
                          dense((n,), dtype))
            rec.case((w, mode, n, level), nontrivial=False)
            rec.check(isinstance(exc, ValueError), "a level below one must raise ValueError", (w, n, level))
    # batches of more dimensions
    for n, batch in itertools.product((2 * f, 2 * f + 1, 2 * f + 3), ((), (1,), (2, 3))):
        x = dense(batch + (n,), dtype)
        lev = boundary.levels(n, f, 2)
        key = (w, mode, orth, dt, n, batch)
        rec.case(key)
        got = ptwt.MatrixWavedec(w, lev, orthogonalization=orth, odd_coeff_padding_mode=mode)(x)
        want = boundary.forward(w, to_np(x).astype(np.float64), mode, lev, orth, dt)
        for g, v in zip(got, want):
            close(rec, g, v, tol, "batched coefficients", key)
        back = ptwt.MatrixWaverec(w, orthogonalization=orth)(got)
        close(rec, back[..., :n], to_np(x), tol, "batched reconstruction", key)


def check_operator(rec, key, get, done, padded, want, tol):
    op, exc = call(get)
    if done == 0:
        rec.check(isinstance(exc, ValueError), "no level, no operator: ValueError", key)
    elif padded and done > 1:
        rec.check(isinstance(exc, NotImplementedError), "padded levels have no operator", key)
    else:
        if exc is not None:
            raise exc
        close(rec, op.to_dense(), want(), tol, "published operator", key)
        rec.count("operators")


def run_long(unit, rec):
    w = unit["wavelet"]
    f = ref.flen(w)
    lengths = (128, 255, 256, 300, 511, 777, 1024, 2049, 4097, 8192) if rec.tier == "quick" else (
        128, 255, 256, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4097, 8192, 8193, 16385, 20001)
    orths = ("qr", "gramschmidt") if f <= 4 else ("qr",)
    lo, hi = (np.array(v) for v in ref.bank(w)[:2])
    for n, orth in itertools.product(lengths, orths):
        for mode in ref.MODES if n < 1000 else ref.MODES[:2]:
            x = dense((2, n), F64)
            for level in (1, 3, None) if n < 3000 else (1, 4):
                if orth != "qr" and level is None:
                    continue
                key = (w, "long", n, orth, mode, level)
                rec.case(key)
                got = ptwt.MatrixWavedec(w, level, orthogonalization=orth, odd_coeff_padding_mode=mode)(x)
                asked = ref.max_level(n + n % 2, f) if level is None else level
                done = boundary.levels(n, f, asked)
                rec.check(len(got) == done + 1, f"{len(got) - 1} levels instead of {done}", key)
                back = ptwt.MatrixWaverec(w, orthogonalization=orth)(got)
                close(rec, back[..., :n], to_np(x), 1e-9, "reconstruction", key)
                # energy of the extended signal is kept if only the input is extended
                if not boundary.any_padding(n, f, done):
                    xe = to_np(x) if n % 2 == 0 else boundary.extend(to_np(x), mode)
                    e = sum((to_np(g) ** 2).sum() for g in got)
                    close(rec, np.array(e), np.array((xe ** 2).sum()), 1e-7, "energy", key)
                # interior of the finest level: plain filtering
                xe = to_np(x) if n % 2 == 0 else boundary.extend(to_np(x), mode)
                m = xe.shape[-1] // 2
                ks = range(f // 2, m - f // 2)
                d = np.stack([sum(hi[j] * xe[:, 2 * k + f // 2 - j] for j in range(f)) for k in ks], -1)
                close(rec, to_np(got[-1])[:, f // 2: m - f // 2], d, 1e-9, "interior details", key)
    # large batches
    for batch, n in (((70,), 33), ((300,), 24), ((1030,), 21), ((40, 60), 20), ((4100,), 18), ((66000,), 18), ((20,), 1024)):
        key = (w, "batch", batch, n)
        rec.case(key)
        x = dense(batch + (n,), F64, kind=2)
        got = ptwt.MatrixWavedec(w, 1)(x)
        want = boundary.forward(w, to_np(x), "zero", 1)
        rec.check(len(got) == len(want), "number of arrays", key)
        for g, v in zip(got, want):
            close(rec, g, v, 1e-9, "coefficients", key)
        close(rec, ptwt.MatrixWaverec(w)(got)[..., :n], to_np(x), 1e-9, "reconstruction", key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
