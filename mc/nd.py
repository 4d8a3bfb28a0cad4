"""Shared exploration of the padded 2-D and 3-D transforms (C03, C04)."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import ptwt

from . import ref
from .util import DT, F32, F64, call, close, dense, to_np, tol_for

KEYS = {
    2: ("ad", "da", "dd"),
    3: ("aad", "ada", "add", "daa", "dad", "dda", "ddd"),
}
TUPLE2 = ("da", "ad", "dd")  # (H, V, D)


class Fam:
    """One analysis/synthesis pair."""

    def __init__(self, name):
        self.name = name
        self.ndim = int(name[-1])
        self.dec = {
            "wavedec2": ptwt.wavedec2,
            "wavedec3": ptwt.wavedec3,
            "fswavedec2": ptwt.fswavedec2,
            "fswavedec3": ptwt.fswavedec3,
        }[name]
        self.rec = {
            "wavedec2": ptwt.waverec2,
            "wavedec3": ptwt.waverec3,
            "fswavedec2": ptwt.fswaverec2,
            "fswavedec3": ptwt.fswaverec3,
        }[name]

    def details(self, rec, lev, key):
        """Level entry as dictionary, with its documented form checked."""
        if self.name == "wavedec2":
            rec.check(isinstance(lev, tuple) and len(lev) == 3, "details are no 3-tuple", key)
            rec.check(isinstance(lev, ptwt.WaveletDetailTuple2d), "wrong tuple type", key)
            rec.check(
                lev.horizontal is lev[0] and lev.vertical is lev[1] and lev.diagonal is lev[2],
                "field order", key)
            return dict(zip(TUPLE2, lev))
        rec.check(isinstance(lev, dict), "details are no dict", key)
        rec.check(set(lev) == set(KEYS[self.ndim]), lambda: f"keys {sorted(lev)}", key)
        return lev

    def build(self, approx, details, order=None):
        """Coefficient structure from dictionaries."""
        if self.name == "wavedec2":
            return (approx, *(ptwt.WaveletDetailTuple2d(*(d[k] for k in TUPLE2)) for d in details))
        order = order or KEYS[self.ndim]
        return (approx, *({k: d[k] for k in order} for d in details))


def refusable(sides, f, mode, level):
    return any(ref.may_refuse_levels(n, f, mode, level) for n in sides)


def auto_level(sides, f):
    return ref.max_level(min(sides), f)


def analyse(rec, fam, w, mode, sides, level, x, key):
    """Execute one analysis and compare with the per-axis filter banks."""
    f = ref.flen(w)
    lev = auto_level(sides, f) if level is None else level
    got, exc = call(fam.dec, x, w, mode=mode, level=level)
    if exc is not None:
        rec.case(key, nontrivial=False)
        rec.check(refusable(sides, f, mode, lev), lambda: f"{fam.name} raised {exc!r}", key)
        rec.count("refusals")
        return None
    rec.case(key)
    rec.check(isinstance(got, tuple), lambda: f"{fam.name} returned {type(got)}", key)
    rec.check(len(got) == lev + 1, lambda: f"{len(got)} entries for level {lev}", key)
    xn = to_np(x).astype(np.float64)
    wa, wd = ref.wavedecn(w, xn, mode, lev, fam.ndim)
    scale = max(1.0, float(np.abs(xn).max()) if xn.size else 1) * ref.gain(w) ** (fam.ndim * max(lev, 1))
    tol = tol_for(x.dtype, scale)
    rec.check(got[0].dtype == x.dtype, "dtype changed", key)
    close(rec, got[0], wa, tol, "approximation", key)
    for i, (g, d) in enumerate(zip(got[1:], wd)):
        gd = fam.details(rec, g, key)
        for k in KEYS[fam.ndim]:
            rec.check(gd[k].dtype == x.dtype, "dtype changed", key)
            close(rec, gd[k], d[k], tol, f"subband {k} of entry {i + 1}", key)
    return got


def coeff_shapes(sides, f, level):
    """Shapes [approx, L, ..., 1] for a signal of these sides."""
    per = [ref.levels_lengths(n, f, level) for n in sides]
    shapes = [tuple(p[i] for p in per) for i in range(1, level + 1)][::-1]
    return ([shapes[0]] if shapes else [tuple(sides)]) + shapes


def synth(rec, fam, w, shapes, batch, make, key, dtype=F64, order=None):
    """Execute one synthesis of arbitrary coefficients, compare."""
    nd = fam.ndim
    approx = make(batch + shapes[0], 0)
    details = []
    for i, sh in enumerate(shapes[1:]):
        details.append({k: make(batch + sh, 1 + 7 * i + j) for j, k in enumerate(KEYS[nd])})
    rec.case(key)
    got = fam.rec(fam.build(approx, details, order), w)
    want = ref.waverecn(
        w,
        to_np(approx).astype(np.float64),
        [{k: to_np(v).astype(np.float64) for k, v in d.items()} for d in details],
        nd,
    )
    rec.check(got.dtype == dtype, "dtype changed", key)
    close(rec, got, want, tol_for(dtype, 8 * ref.gain(w) ** (nd * max(len(details), 1))),
          "synthesis", key)


def synth_basis(rec, fam, w, shapes, key):
    """All unit coefficients at once."""
    nd = fam.ndim
    slots = [("a", shapes[0])] + [
        ((i, k), sh) for i, sh in enumerate(shapes[1:]) for k in KEYS[nd]
    ]
    total = sum(int(np.prod(sh)) for _, sh in slots)
    eye = np.eye(total)
    pos, parts = 0, {}
    for name, sh in slots:
        size = int(np.prod(sh))
        parts[name] = eye[:, pos:pos + size].reshape((total,) + sh)
        pos += size
    details = [{k: parts[(i, k)] for k in KEYS[nd]} for i in range(len(shapes) - 1)]
    rec.case(key)
    got = fam.rec(
        fam.build(torch.tensor(parts["a"]), [{k: torch.tensor(v) for k, v in d.items()} for d in details]), w)
    want = ref.waverecn(w, parts["a"], details, nd)
    close(rec, got, want, tol_for(F64, ref.gain(w) ** (nd * max(len(details), 1))), "synthesis", key)


def round_trip(rec, fam, w, mode, sides, level, key):
    f = ref.flen(w)
    if refusable(sides, f, mode, level):
        return
    x = dense((2,) + tuple(sides), F64, kind=5)
    rec.case(key)
    y = fam.rec(fam.dec(x, w, mode=mode, level=level), w)
    want_shape = (2,) + tuple(n + n % 2 for n in sides)
    rec.check(tuple(y.shape) == want_shape, lambda: f"shape {tuple(y.shape)}", key)
    g = ref.gain(w) ** (2 * level * fam.ndim)
    sl = (slice(None),) + tuple(slice(0, n) for n in sides)
    close(rec, y[sl], x, tol_for(F64, g) + 8 * level * g * ref.intrinsic_defect(w),
          "reconstruction", key)


SMALL = ("haar", "db2", "bior2.2", "rbio1.3", "sym3", "coif1")


def units_for(fams, tier):
    quick = tier == "quick"
    res = []
    for fam in fams:
        nd = int(fam[-1])
        for w in SMALL if quick else SMALL + ("db4", "bior3.1", "rbio2.4", "db5"):
            for mode in ref.MODES:
                res.append(dict(kind="basis", fam=fam, wavelet=w, mode=mode))
            res.append(dict(kind="synth", fam=fam, wavelet=w))
        per = 3
        ws = list(ref.DISCRETE)
        if nd == 3:
            ws = [w for w in ws if ref.flen(w) <= (12 if quick else 24)]
        if fam == "wavedec2" and quick:
            ws = [w for w in ws if ref.flen(w) <= 62]
        for i in range(0, len(ws), per):
            res.append(dict(kind="bank", fam=fam, wavelets=ws[i:i + per]))
        for w in ("haar", "db3", "bior2.2"):
            res.append(dict(kind="large", fam=fam, wavelet=w))
    return res


def run_basis(unit, rec):
    fam, w, mode = Fam(unit["fam"]), unit["wavelet"], unit["mode"]
    quick = rec.tier == "quick"
    f = ref.flen(w)
    if fam.ndim == 2:
        sides = list(itertools.product(range(1, 7 if quick else 11), repeat=2))
        more = sorted({f - 1, f, f + 1, 2 * f - 1, 2 * f, 9, 12, 16, 17} - {0})
        extra = [s for s in itertools.product(more, repeat=2)]
        extra += list(itertools.product((1, 2, 3), (16, 21))) + list(itertools.product((16, 21), (1, 2, 3)))
        tops = (0, 1, 2, 3, None)
    else:
        sides = list(itertools.product(range(1, 4 if quick else 6), repeat=3))
        more = sorted({f - 1, f + 1, 4, 7, 9 if quick else 12} - {0})
        extra = list(itertools.product(more, repeat=3))
        tops = (0, 1, 2, None)
    for s in sides:
        size = int(np.prod(s))
        x = torch.eye(size, dtype=F64).reshape((size,) + s)
        for level in tops:
            analyse(rec, fam, w, mode, s, level, x, (fam.name, w, mode, s, level, "identity"))
        for level in (1, 2):
            round_trip(rec, fam, w, mode, s, level, (fam.name, w, mode, s, level, "round trip"))
    for s in extra:
        for level in tops:
            for batch in ((), (2,)):
                dt = F32 if (batch and level == 2) else F64
                analyse(rec, fam, w, mode, s, level, dense(batch + s, dt, kind=1),
                        (fam.name, w, mode, s, level, batch, "dense"))
        for level in (1, 2, 3) if fam.ndim == 2 else (1, 2):
            round_trip(rec, fam, w, mode, s, level, (fam.name, w, mode, s, level, "round trip"))


def run_synth(unit, rec):
    fam, w = Fam(unit["fam"]), unit["wavelet"]
    quick = rec.tier == "quick"
    f = ref.flen(w)
    seen = set()
    if fam.ndim == 2:
        rng = range(1, 8 if quick else 12)
        sides = list(itertools.product(rng, repeat=2)) + list(
            itertools.product((f, f + 1, 15, 18), repeat=2))
    else:
        rng = range(1, 5 if quick else 7)
        sides = list(itertools.product(rng, repeat=3)) + list(
            itertools.product((f, 7, 10), repeat=3))
    for s in sides:
        for level in (0, 1, 2, 3) if fam.ndim == 2 else (0, 1, 2):
            shapes = coeff_shapes(s, f, level)
            if tuple(shapes) in seen:
                continue
            seen.add(tuple(shapes))
            total = int(np.prod(shapes[0])) + sum(
                len(KEYS[fam.ndim]) * int(np.prod(t)) for t in shapes[1:])
            if total <= (420 if quick else 1200):
                synth_basis(rec, fam, w, shapes, (fam.name, w, tuple(shapes), "unit"))
            for batch in ((), (3,)):
                for dt in (F64, F32):
                    synth(rec, fam, w, shapes, batch,
                          lambda sh, k: dense(sh, dt, kind=k),
                          (fam.name, w, tuple(shapes), batch, str(dt)), dtype=dt)
            if fam.name != "wavedec2" and level in (1, 2):
                keys = KEYS[fam.ndim]
                if fam.ndim == 2:
                    orders = list(itertools.permutations(keys))
                elif max(s) <= 3:
                    orders = [keys[i:] + keys[:i] for i in range(7)] + [keys[::-1]]
                    for i, j in itertools.combinations(range(7), 2):
                        o = list(keys)
                        o[i], o[j] = o[j], o[i]
                        orders.append(tuple(o))
                else:
                    orders = [keys[::-1]]
                for o in orders:
                    synth(rec, fam, w, shapes, (), lambda sh, k: dense(sh, F64, kind=k),
                          (fam.name, w, tuple(shapes), "keys", o), order=o)


def run_bank(unit, rec):
    fam = Fam(unit["fam"])
    for w in unit["wavelets"]:
        f = ref.flen(w)
        if fam.ndim == 2:
            sides = [(f, f + 1), (f + 3, max(f - 1, 1)), (9, 2 * f)]
        else:
            sides = [(f, f + 1, max(f - 1, 1)), (5, 4, 7)]
        if fam.name == "wavedec2" and f > 36 and rec.tier == "quick":
            sides = sides[:1]
        for s in sides:
            for mode in ref.MODES:
                for level in (1, 2) if fam.ndim == 2 and (f <= 36 or rec.tier != "quick") else (1,):
                    analyse(rec, fam, w, mode, s, level, dense((2,) + s, F64, kind=2),
                            (fam.name, w, mode, s, level, "bank"))
                    round_trip(rec, fam, w, mode, s, level,
                               (fam.name, w, mode, s, level, "bank round trip"))
            synth(rec, fam, w, coeff_shapes(s, f, 1), (), lambda sh, k: dense(sh, F64, kind=k),
                  (fam.name, w, s, "bank synthesis"))


def run_large(unit, rec):
    fam, w = Fam(unit["fam"]), unit["wavelet"]
    f = ref.flen(w)
    if fam.ndim == 2:
        sides = [(64, 64), (63, 65), (100, 37), (31, 128), (129, 128), (256, 130), (257, 255),
                 (520, 515), (1030, 21), (20, 1027), (6, 4099), (2050, 9)]
        batches = [((70,), (12, 13)), ((300,), (9, 8)), ((1100,), (6, 5)), ((40, 60), (5, 6)), ((4100,), (4, 6)),
                   ((35,), (130, 129))]
    else:
        sides = [(16, 17, 18), (33, 32, 31), (20, 9, 40), (40, 33, 12),
                 (130, 7, 6), (6, 129, 7), (7, 6, 130), (300, 4, 5), (66, 65, 67)]
        batches = [((70,), (6, 5, 4)), ((300,), (3, 4, 5)), ((1030,), (3, 2, 4)), ((20, 13), (4, 3, 5))]
    for mode in ref.MODES:
        for s in sides:
            for level in (1, 3, None):
                analyse(rec, fam, w, mode, s, level, dense(s, F64, kind=3),
                        (fam.name, w, mode, s, level, "large"))
        for b, s in batches:
            analyse(rec, fam, w, mode, s, 1, dense(b + s, F64, kind=3),
                    (fam.name, w, mode, s, 1, b))
    for s in sides:
        synth(rec, fam, w, coeff_shapes(s, f, 2), (), lambda sh, k: dense(sh, F64, kind=k),
              (fam.name, w, s, "large synthesis"))
    for b, s in batches:
        synth(rec, fam, w, coeff_shapes(s, f, 1), b, lambda sh, k: dense(sh, F64, kind=k),
              (fam.name, w, s, b, "large synthesis"))
    # magnitudes and sparse images
    s = (9, 10) if fam.ndim == 2 else (5, 6, 7)
    for scale in (0.0, 1e-30, 1e-12, 1e-4, 1e6, 1e25):
        for mode in ref.MODES:
            for kind in ("dense", "const", "spike"):
                x = dense(s, F64, kind=1) if kind == "dense" else torch.ones(s, dtype=F64)
                if kind == "spike":
                    x = torch.zeros(s, dtype=F64)
                    x[(2,) * fam.ndim] = 1
                x = x * scale
                key = (fam.name, w, mode, s, scale, kind)
                got, exc = call(fam.dec, x, w, mode=mode, level=1)
                if exc is not None:
                    rec.check(refusable(s, f, mode, 1), repr(exc), key)
                    continue
                rec.case(key)
                wa, wd = ref.wavedecn(w, to_np(x), mode, 1, fam.ndim)
                tol = tol_for(F64, 4 * scale * ref.gain(w) ** fam.ndim)
                close(rec, got[0], wa, tol, "approximation", key)
                gd = fam.details(rec, got[1], key)
                for k in gd:
                    close(rec, gd[k], wd[0][k], tol, k, key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


def cost(unit):
    base = {"basis": 100, "synth": 90, "bank": 80, "large": 120}[unit["kind"]]
    if unit["kind"] == "bank":
        base += max(ref.flen(w) for w in unit["wavelets"]) * 10
    return base * (2 if unit["fam"].endswith("3") else 1)


_ = DT
