"""Reference model: textbook filter banks written as explicit matrices (numpy).

Nothing here calls ptwt.  Borders are index maps, filters are index sums.
"""
from __future__ import annotations

import functools
import itertools
import math

import numpy as np
import pywt

MODES = ("zero", "constant", "symmetric", "reflect", "periodic")
DISCRETE = tuple(pywt.wavelist(kind="discrete"))


@functools.lru_cache(maxsize=None)
def bank(name):
    """dec_lo, dec_hi, rec_lo, rec_hi of a named wavelet as tuples."""
    w = pywt.Wavelet(name)
    return tuple(tuple(float(v) for v in f) for f in w.filter_bank)


def flen(name):
    return len(bank(name)[0])


EVEN = tuple(w for w in DISCRETE if flen(w) % 2 == 0)


def ext_index(n, mode, i):
    """Index of the sample that extends a signal of length n at position i."""
    if 0 <= i < n:
        return i
    if mode == "zero":
        return None
    if mode == "constant":
        return 0 if i < 0 else n - 1
    if mode == "periodic":
        return i % n
    if mode == "symmetric":
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == "reflect":
        if n == 1:
            return 0
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i
    raise AssertionError(mode)


def out_len(n, f):
    return (n + f - 1) // 2


def may_refuse(n, f, mode):
    """Can torch not serve the padding for one level on length n?"""
    pad = f - 2 + n % 2
    if mode == "reflect":
        return pad >= n and pad > 0
    if mode == "periodic":
        return pad > n
    return False


def levels_lengths(n, f, level):
    """Input lengths of each level."""
    res = [n]
    for _ in range(level):
        res.append(out_len(res[-1], f))
    return res


def may_refuse_levels(n, f, mode, level):
    return any(may_refuse(m, f, mode) for m in levels_lengths(n, f, level)[:-1])


@functools.lru_cache(maxsize=4096)
def analysis(h, n, mode):
    """Matrix of c[k] = sum_j h[j] ext(2k + 1 - j)."""
    f = len(h)
    m = out_len(n, f)
    a = np.zeros((m, n))
    for k in range(m):
        for j in range(f):
            i = ext_index(n, mode, 2 * k + 1 - j)
            if i is not None:
                a[k, i] += h[j]
    a.setflags(write=False)
    return a


@functools.lru_cache(maxsize=4096)
def synthesis(g, m):
    """Matrix of y[t] = sum_k g[t + f - 2 - 2k] c[k],  t < 2m - f + 2."""
    f = len(g)
    size = 2 * m - f + 2
    s = np.zeros((max(size, 0), m))
    for t in range(max(size, 0)):
        for k in range(m):
            j = t + f - 2 - 2 * k
            if 0 <= j < f:
                s[t, k] = g[j]
    s.setflags(write=False)
    return s


@functools.lru_cache(maxsize=2048)
def wavedec_mats(name, n, mode, level):
    """[A_L, D_L, ..., D_1] as matrices acting on the signal."""
    lo, hi = bank(name)[:2]
    cur = np.eye(n)
    res = []
    for _ in range(level):
        size = cur.shape[0]
        res.append(analysis(hi, size, mode) @ cur)
        cur = analysis(lo, size, mode) @ cur
    res.append(cur)
    return res[::-1]


def waverec_apply(name, coeffs):
    """Reference synthesis; coeffs: list of (m_i, batch) arrays."""
    rl, rh = bank(name)[2:]
    cur = coeffs[0]
    for d in coeffs[1:]:
        if cur.shape[0] == d.shape[0] + 1:
            cur = cur[:-1]
        assert cur.shape[0] == d.shape[0]
        cur = synthesis(rl, cur.shape[0]) @ cur + synthesis(rh, d.shape[0]) @ d
    return cur


def apply_axis(mat, x, axis):
    """Apply a matrix along one axis of an array."""
    return np.moveaxis(np.tensordot(mat, x, axes=(1, axis)), 0, axis)


LONG = 300


def analysis_axis(h, x, mode, axis):
    """One filter and downsampling along an axis."""
    if x.shape[axis] <= LONG:
        return apply_axis(analysis(h, x.shape[axis], mode), x, axis)
    return np.moveaxis(analysis_long(h, np.moveaxis(x, axis, -1), mode), -1, axis)


def synthesis_axis(g, x, axis):
    if x.shape[axis] <= LONG:
        return apply_axis(synthesis(g, x.shape[axis]), x, axis)
    return np.moveaxis(synthesis_long(g, np.moveaxis(x, axis, -1)), -1, axis)


def dwtn(name, x, mode, ndim):
    """One level over the last ndim axes; dict key -> array."""
    lo, hi = bank(name)[:2]
    res = {"": x}
    for pos in range(ndim):
        axis = x.ndim - ndim + pos
        new = {}
        for key, val in res.items():
            new[key + "a"] = analysis_axis(lo, val, mode, axis)
            new[key + "d"] = analysis_axis(hi, val, mode, axis)
        res = new
    return res


def wavedecn(name, x, mode, level, ndim):
    """(approx, [dict_L, ..., dict_1])."""
    details = []
    for _ in range(level):
        res = dwtn(name, x, mode, ndim)
        x = res.pop("a" * ndim)
        details.append(res)
    return x, details[::-1]


def idwtn(name, coeffs, ndim):
    """One synthesis level over the last ndim axes, dict key -> array."""
    rl, rh = bank(name)[2:]
    res = dict(coeffs)
    nd = next(iter(res.values())).ndim
    for pos in reversed(range(ndim)):
        axis = nd - ndim + pos
        new = {}
        for key in {k[:-1] for k in res}:
            a, d = res[key + "a"], res[key + "d"]
            new[key] = synthesis_axis(rl, a, axis) + synthesis_axis(rh, d, axis)
        res = new
    return res[""]


def waverecn(name, approx, details, ndim):
    x = approx
    for dic in details:
        shape = next(iter(dic.values())).shape
        sl = [slice(None)] * (x.ndim - ndim) + [
            slice(0, s) for s in shape[x.ndim - ndim:]
        ]
        x = x[tuple(sl)]
        x = idwtn(name, {**dic, "a" * ndim: x}, ndim)
    return x


# ----------------------------------------------------------- stationary
@functools.lru_cache(maxsize=4096)
def swt_matrix(h, n, level):
    """Cyclic filter dilated by 2^(level-1), phase of pywt.swt."""
    f = len(h)
    dil = 2 ** (level - 1)
    a = np.zeros((n, n))
    for k in range(n):
        for j in range(f):
            a[k, (k + dil * (f // 2) - dil * j) % n] += h[j]
    return a


@functools.lru_cache(maxsize=4096)
def iswt_matrices(name, n, level):
    """Lo and hi matrix of the averaged shifted inverses of one level.

    It is half of the transposed dilated synthesis filter bank.
    """
    rl, rh = bank(name)[2:]
    f = len(rl)
    dil = 2 ** (level - 1)
    mats = []
    for g in (rl, rh):
        s = np.zeros((n, n))
        for t in range(n):
            for j in range(f):
                # y[t] += g[j] c[t - dil*(j - (f/2 - 1))] / 2
                s[t, (t - dil * j + dil * (f // 2 - 1)) % n] += g[j] / 2
        mats.append(s)
    return mats


def swt_mats(name, n, level):
    lo, hi = bank(name)[:2]
    cur = np.eye(n)
    res = []
    for lev in range(1, level + 1):
        res.append(swt_matrix(hi, n, lev) @ cur)
        cur = swt_matrix(lo, n, lev) @ cur
    res.append(cur)
    return res[::-1]


def iswt_apply(name, coeffs):
    cur = coeffs[0]
    lev = len(coeffs) - 1
    for d in coeffs[1:]:
        sl, sh = iswt_matrices(name, cur.shape[0], lev)
        cur = sl @ cur + sh @ d
        lev -= 1
    return cur


# ------------------------------------------------------ boundary wavelets
@functools.lru_cache(maxsize=2048)
def boundary_raw(h, n):
    f = len(h)
    a = np.zeros((n // 2, n))
    full = np.zeros(n // 2, dtype=bool)
    for k in range(n // 2):
        cnt = 0
        for j in range(f):
            i = 2 * k + f // 2 - j
            if 0 <= i < n:
                a[k, i] += h[j]
                cnt += 1
        full[k] = cnt == f
    return a, full


@functools.lru_cache(maxsize=2048)
def boundary_matrix(name, n):
    """Orthogonal boundary analysis matrix, rows up to sign.

    Returns (matrix, full) where full marks the rows that are plain filters.
    """
    lo, hi = bank(name)[:2]
    al, fl = boundary_raw(lo, n)
    ah, fh = boundary_raw(hi, n)
    a = np.concatenate([al, ah])
    full = np.concatenate([fl, fh])
    # Rows with all taps are kept.  The truncated rows are orthonormalized
    # in their order (long double: the result is unique up to the sign).
    rows = np.flatnonzero(~full)
    basis = []
    res = a.astype(np.longdouble).copy()
    for r in rows:
        v = res[r].copy()
        for _ in range(3):
            for b in basis:
                v = v - b * (b @ v)
        v = v / np.sqrt(v @ v)
        basis.append(v)
        res[r] = v
    return res.astype(np.float64), full


# ----------------------------------------------------------------- levels
def max_level(n, f):
    """Largest L with n >= (f - 1) 2^L, at least 0 (integer arithmetic)."""
    if f < 2:
        return 0
    level = 0
    while n >= (f - 1) * 2 ** (level + 1):
        level += 1
    return level if n >= f - 1 else 0


def swt_max_level(n):
    level = 0
    while n % 2 == 0 and n > 0:
        n //= 2
        level += 1
    return level


def boundary_lengths(n, f, level):
    """(even lengths of the computed levels, was any padded)."""
    res, padded = [], False
    cur = n
    for _ in range(level):
        if cur < f:
            break
        if cur % 2:
            cur += 1
            padded = True
        res.append(cur)
        cur //= 2
    return res, padded


# ------------------------------------------------------------------ orders
def gray_paths(level, letters):
    """Frequency order of one axis: reflected Gray code."""
    if level == 0:
        return [""]
    res = []
    for i in range(2 ** level):
        g = i ^ (i >> 1)
        res.append("".join(letters[(g >> (level - 1 - b)) & 1] for b in range(level)))
    return res


def product_paths(level, letters):
    return ["".join(p) for p in itertools.product(letters, repeat=level)]


def intrinsic_defect(name):
    """Deviation of the filter bank from perfect reconstruction."""
    dl, dh, rl, rh = (np.array(v) for v in bank(name))
    f = len(dl)
    p = np.convolve(dl, rl) + np.convolve(dh, rh)
    p[f - 1] -= 2
    alt = (-1.0) ** np.arange(f)
    q = np.convolve(dl * alt, rl) + np.convolve(dh * alt, rh)
    return float(np.abs(p).sum() + np.abs(q).sum())


def gain(name):
    return max(1.0, max(sum(abs(v) for v in f) for f in bank(name)))


_ = math


# ------------------------------------------- long signals (no matrices)
def ext_positions(n, mode, pos):
    """Vectorized ext_index; -1 stands for a zero."""
    pos = np.asarray(pos)
    if mode == "zero":
        return np.where((pos >= 0) & (pos < n), pos, -1)
    if mode == "constant":
        return np.clip(pos, 0, n - 1)
    if mode == "periodic":
        return pos % n
    if mode == "symmetric":
        p = pos % (2 * n)
        return np.where(p < n, p, 2 * n - 1 - p)
    if mode == "reflect":
        if n == 1:
            return np.zeros_like(pos)
        p = pos % (2 * n - 2)
        return np.where(p < n, p, 2 * n - 2 - p)
    raise AssertionError(mode)


def analysis_long(h, x, mode):
    """One level along the last axis of x."""
    n, f = x.shape[-1], len(h)
    m = out_len(n, f)
    res = np.zeros(x.shape[:-1] + (m,))
    k = np.arange(m)
    for j in range(f):
        idx = ext_positions(n, mode, 2 * k + 1 - j)
        res += h[j] * np.where(idx >= 0, x[..., np.maximum(idx, 0)], 0.0)
    return res


def wavedec_long(name, x, mode, level):
    lo, hi = bank(name)[:2]
    res = []
    for _ in range(level):
        res.append(analysis_long(hi, x, mode))
        x = analysis_long(lo, x, mode)
    return [x] + res[::-1]


def synthesis_long(g, c):
    f, m = len(g), c.shape[-1]
    size = 2 * m - f + 2
    up = np.zeros(c.shape[:-1] + (2 * m + f,))
    for j in range(f):
        up[..., j: j + 2 * m: 2] += g[j] * c
    return up[..., f - 2: f - 2 + size]


def waverec_long(name, coeffs):
    rl, rh = bank(name)[2:]
    cur = coeffs[0]
    for d in coeffs[1:]:
        cur = cur[..., : d.shape[-1]]
        cur = synthesis_long(rl, cur) + synthesis_long(rh, d)
    return cur
