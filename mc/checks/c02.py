"""C02: waverec is the synthesis filter bank on arbitrary coefficients."""
import itertools

import numpy as np
import torch

import ptwt

from .. import ref
from ..util import DT, F32, F64, call, close, dense, to_np, tol_for

LEVEL = "exploration"
RULE = (
    "for every wavelet and every chain of coefficient lengths reachable from a signal "
    "length and level, waverec is executed on every unit coefficient (identity batch "
    "over the concatenated coefficients) and on dense ones and compared with the "
    "synthesis index sums; every round trip and every list whose lengths do not fit is "
    "executed too; non-trivial: values compared, or the required exception observed"
)
ASSUMPTIONS = [
    "the synthesis is linear in its coefficients (decided separately by C22)",
    "pywt's filter tables are the definition of the wavelets",
]


def units(tier, seed):
    res = [dict(kind="basis", wavelet=w) for w in ref.DISCRETE]
    res += [dict(kind="mismatch", wavelet=w) for w in ("haar", "db2", "bior2.2", "db4")]
    res += [
        dict(kind="long", wavelet=w)
        for w in ("haar", "db2", "db3", "sym5", "bior2.4", "coif2", "rbio3.1", "db10")
    ]
    return res


def cost(unit):
    return ref.flen(unit["wavelet"])


def coeff_lengths(n, f, level):
    ls = ref.levels_lengths(n, f, level)
    return [ls[-1]] + ls[:0:-1]


def run_basis(unit, rec):
    w = unit["wavelet"]
    f = ref.flen(w)
    gain = ref.gain(w)
    quick = rec.tier == "quick"
    top = 3 if quick else 4
    base = set(range(1, 25 if quick else 60))
    span = 2 if quick else 5
    for c in (f, 2 * (f - 1), 2 * f):
        base |= {n for n in range(c - span, c + span + 1) if n >= 1}
    seen = set()
    for n in sorted(base):
        for level in range(0, top + 1):
            if n > 60 and level not in (1, 2):
                continue
            sizes = tuple(coeff_lengths(n, f, level) if level else [n])
            if sizes not in seen:
                seen.add(sizes)
                total = sum(sizes)
                eye = np.eye(total)
                parts = np.split(eye, np.cumsum(sizes)[:-1], axis=0)
                want = ref.waverec_apply(w, parts)
                for dname in ("f64", "f32"):
                    dt = DT[dname]
                    if dt == F32 and level != 2:
                        continue
                    for form in (list, tuple):
                        if form is tuple and level != 1:
                            continue
                        cs = form(torch.tensor(p.T.copy(), dtype=dt) for p in parts)
                        key = (w, sizes, dname, form.__name__)
                        rec.case(key)
                        got = ptwt.waverec(cs, w)
                        rec.check(got.dtype == dt, "dtype changed", key)
                        close(rec, got, want.T, tol_for(dt, gain ** max(level, 1)),
                              "synthesis", key)
                # unbatched dense coefficients
                dn = [dense((s,), F64, kind=i) for i, s in enumerate(sizes)]
                key = (w, sizes, "dense")
                rec.case(key)
                got = ptwt.waverec(dn, w)
                want1 = ref.waverec_apply(w, [to_np(d)[:, None] for d in dn])[:, 0]
                close(rec, got, want1, tol_for(F64, 8 * gain ** max(level, 1)),
                      "synthesis of dense coefficients", key)
            # round trips
            for mode in ref.MODES:
                if level == 0:
                    continue
                if ref.may_refuse_levels(n, f, mode, level):
                    continue
                x = dense((2, n), F64, kind=3)
                key = (w, n, level, mode, "round trip")
                rec.case(key)
                y = ptwt.waverec(ptwt.wavedec(x, w, mode=mode, level=level), w)
                rec.check(y.shape == (2, n + n % 2), lambda: f"shape {tuple(y.shape)}", key)
                tol = tol_for(F64, gain ** (2 * level)) + 4 * level * gain ** (
                    2 * level
                ) * ref.intrinsic_defect(w)
                close(rec, y[..., :n], x, tol, "reconstruction", key)


def run_mismatch(unit, rec):
    """All triples of lengths: either they fit, or an exception is raised."""
    w = unit["wavelet"]
    f = ref.flen(w)
    top = f + 6 if rec.tier == "quick" else f + 12
    lo = max(1, f // 2)
    for a, b in itertools.product(range(lo, top), repeat=2):
        for c in [None] + list(range(lo, top + 6)):
            sizes = (a, b) if c is None else (a, b, c)
            fits = a == b
            if fits and c is not None:
                out = 2 * a - f + 2
                fits = c in (out, out - 1)
            for batch in ((), (2,)):
                cs = [dense(batch + (s,), F64, kind=i) for i, s in enumerate(sizes)]
                got, exc = call(ptwt.waverec, cs, w)
                key = (w, sizes, batch)
                rec.case(key)
                if fits:
                    if exc is not None:
                        # nothing left after the padding was removed
                        rec.check(2 * a - f + 2 <= 0, f"raised {exc!r}", key)
                        continue
                    want = ref.waverec_long(w, [to_np(v) for v in cs])
                    close(rec, got, want, tol_for(F64, 8 * ref.gain(w) ** 2), "synthesis", key)
                else:
                    rec.check(exc is not None,
                              "coefficients of unsuitable lengths were accepted", key)


def run_long(unit, rec):
    w = unit["wavelet"]
    f = ref.flen(w)
    for n in (63, 64, 65, 127, 129, 256, 257, 512, 513, 1000, 1023, 1024, 1025, 4099, 8191, 8192, 8193, 16385, 20001, 65537, 131075):
        for level in (1, 3, 5, 11) if n > 4000 else (1, 3, 5):
            sizes = coeff_lengths(n, f, level)
            for dt in (F64, F32):
                for batch in ((), (3,), (130,) if n < 300 else (1,)):
                    cs = [dense(batch + (s,), dt, kind=i) for i, s in enumerate(sizes)]
                    key = (w, n, level, str(dt), batch)
                    rec.case(key)
                    got = ptwt.waverec(cs, w)
                    want = ref.waverec_long(w, [to_np(v).astype(np.float64) for v in cs])
                    close(rec, got, want, tol_for(dt, 8 * ref.gain(w) ** level), "synthesis", key)
    for batch, n in (((2049,), 12), ((4100,), 9), ((70, 65), 11), ((33,), 4097), ((3, 5), 9001), ((600,), 257), ((66000,), 7)):
        cs = [dense(batch + (s,), F64, kind=i) for i, s in enumerate(coeff_lengths(n, f, 1))]
        key = (w, n, 1, batch)
        rec.case(key)
        want = ref.waverec_long(w, [to_np(v) for v in cs])
        close(rec, ptwt.waverec(cs, w), want, tol_for(F64, 8 * ref.gain(w)), "synthesis", key)
    # magnitudes
    for n in (9, 24):
        for scale in (0.0, 1e-30, 1e-12, 1e-5, 1e4, 1e12, 1e30):
            for only in (None, 0, 1, 2):
                sizes = coeff_lengths(n, f, 2)
                cs = [
                    dense((s,), F64, kind=i) * (scale if only in (None, i) else 0.0)
                    for i, s in enumerate(sizes)
                ]
                key = (w, n, scale, only)
                rec.case(key)
                want = ref.waverec_long(w, [to_np(v) for v in cs])
                close(rec, ptwt.waverec(cs, w), want,
                      tol_for(F64, 8 * scale * ref.gain(w) ** 2), "synthesis", key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
