"""C06: swt/iswt equal the undecimated definition and invert."""
import numpy as np
import torch

import ptwt

from .. import ref
from ..util import DT, F32, F64, close, dense, to_np, tol_for

LEVEL = "exploration"
RULE = (
    "every (wavelet, length, level, dtype) of the bounded space is run on the identity "
    "batch (all signal values) and on dense signals, iswt on all unit coefficients, and "
    "compared with cyclic index sums of the dilated filters; plus round trips; "
    "non-trivial: all coefficients were compared"
)
ASSUMPTIONS = [
    "swt and iswt are linear in their data (decided separately by C22)",
    "pywt's filter tables are the definition of the wavelets",
]


def units(tier, seed):
    res = [dict(kind="basis", wavelet=w) for w in ref.DISCRETE]
    res += [
        dict(kind="long", wavelet=w)
        for w in ("haar", "db2", "db3", "sym5", "bior2.4", "coif2", "rbio3.1", "db10")
    ]
    return res


def cost(unit):
    return ref.flen(unit["wavelet"])


def run_basis(unit, rec):
    w = unit["wavelet"]
    f = ref.flen(w)
    gain = ref.gain(w)
    quick = rec.tier == "quick"
    sizes = set(range(1, 18 if quick else 41)) | {20, 24, 31, 32, 48, 64}
    sizes |= {n for n in (f // 2 - 1, f // 2, f // 2 + 1, f - 1, f, f + 1) if n >= 1}
    for n in sorted(sizes):
        auto = ref.swt_max_level(n)
        for level in (0, 1, 2, 3, 4, None) if quick else (0, 1, 2, 3, 4, 5, 6, None):
            if quick and n > 40 and level not in (2, None):
                continue
            lev = auto if level is None else level
            mats = ref.swt_mats(w, n, lev)
            scale = gain ** max(lev, 1)
            for dname in ("f64", "f32"):
                if dname == "f32" and level not in (2, None):
                    continue
                dt = DT[dname]
                key = (w, n, level, dname)
                rec.case(key)
                got = ptwt.swt(torch.eye(n, dtype=dt), w, level)
                rec.check(isinstance(got, list), "no list", key)
                rec.check(len(got) == lev + 1, lambda: f"{len(got)} arrays", key)
                for i, (g, m) in enumerate(zip(got, mats)):
                    rec.check(g.dtype == dt, "dtype changed", key)
                    close(rec, g, m.T, tol_for(dt, scale), f"coefficient array {i}", key)
            x = dense((n,), F64, kind=n)
            key = (w, n, level, "dense")
            rec.case(key)
            got = ptwt.swt(x, w, level=level)
            for i, (g, m) in enumerate(zip(got, mats)):
                close(rec, g, m @ to_np(x), tol_for(F64, 4 * scale), f"coefficient array {i}", key)
            back = ptwt.iswt(got, w)
            rec.case(key + ("round trip",))
            tol = tol_for(F64, 4 * gain ** (2 * lev)) + 4 * lev * gain ** (2 * lev) * ref.intrinsic_defect(w)
            close(rec, back, x, tol, "reconstruction", key)
            if level is not None and (n <= 20 or level <= 2):
                total = n * (lev + 1)
                parts = np.split(np.eye(total), lev + 1, axis=0)
                want = ref.iswt_apply(w, parts)
                for form in (list, tuple):
                    if form is tuple and level != 1:
                        continue
                    key = (w, n, level, "synthesis", form.__name__)
                    rec.case(key)
                    got = ptwt.iswt(form(torch.tensor(p.T.copy()) for p in parts), w)
                    close(rec, got, want.T, tol_for(F64, scale), "synthesis", key)
                cs = [dense((2, n), F32, kind=i) for i in range(lev + 1)]
                want = ref.iswt_apply(w, [to_np(c).astype(float).T for c in cs]).T
                key = (w, n, level, "synthesis f32")
                rec.case(key)
                got = ptwt.iswt(cs, w)
                rec.check(got.dtype == F32, "dtype changed", key)
                close(rec, got, want, tol_for(F32, 8 * scale), "synthesis", key)


def run_long(unit, rec):
    w = unit["wavelet"]
    gain = ref.gain(w)
    lo, hi = ref.bank(w)[:2]
    f = len(lo)
    for n in (63, 64, 96, 100, 127, 128, 129, 256, 257, 512, 777, 1000, 1024, 2048, 4096, 8190, 8192, 8200, 16384, 20000, 65536, 131072):
        for level in (1, 2, 4, 6, None) if n < 5000 else (1, 5):
            lev = ref.swt_max_level(n) if level is None else level
            for batch in ((), (3,), (130,) if n < 200 else (1,)):
                for dt in (F64, F32):
                    x = dense(batch + (n,), dt, kind=2)
                    key = (w, n, level, batch, str(dt))
                    rec.case(key)
                    cur = to_np(x).astype(np.float64)
                    want = []
                    for s in range(lev):
                        dil = 2 ** s
                        sh = [dil * (f // 2) - dil * j for j in range(f)]
                        rolled = [np.roll(cur, -t, axis=-1) for t in sh]
                        want.append(sum(h * r for h, r in zip(hi, rolled)))
                        cur = sum(h * r for h, r in zip(lo, rolled))
                    want = [cur] + want[::-1]
                    got = ptwt.swt(x, w, level)
                    rec.check(len(got) == lev + 1, "number of arrays", key)
                    scale = 4 * gain ** min(lev, 6) * 2 ** (lev / 2)
                    for i, (g, m) in enumerate(zip(got, want)):
                        close(rec, g, m, tol_for(dt, scale), f"coefficient array {i}", key)
                    close(rec, ptwt.iswt(got, w), x,
                          tol_for(dt, 4 * gain ** min(2 * lev, 10)) + 40 * lev * gain ** 4 * ref.intrinsic_defect(w),
                          "reconstruction", key)
    for batch, n in (((2050,), 12), ((4100,), 8), ((70, 65), 10), ((33,), 4096), ((3, 5), 9000), ((600,), 256), ((66000,), 6)):
        x = dense(batch + (n,), F64, kind=2)
        key = (w, n, 1, batch)
        rec.case(key)
        got = ptwt.swt(x, w, 1)
        for g, h in zip(got, (lo, hi)):
            m = sum(c * np.roll(to_np(x), j - f // 2, axis=-1) for j, c in enumerate(h))
            close(rec, g, m, tol_for(F64, 4 * gain), "coefficients", key)
        close(rec, ptwt.iswt(got, w), x, tol_for(F64, 4 * gain ** 2) + 40 * gain ** 4 * ref.intrinsic_defect(w),
              "reconstruction", key)
    for n in (6, 16):
        for scale in (0.0, 1e-30, 1e-12, 1e-5, 1e4, 1e12, 1e30):
            for kind in ("dense", "const", "spike"):
                x = dense((n,), F64, 1) if kind == "dense" else torch.ones(n, dtype=F64)
                if kind == "spike":
                    x = torch.zeros(n, dtype=F64)
                    x[n // 3] = 1
                x = x * scale
                key = (w, n, scale, kind)
                rec.case(key)
                got = ptwt.swt(x, w, 2)
                for g, m in zip(got, ref.swt_mats(w, n, 2)):
                    close(rec, g, m @ to_np(x), tol_for(F64, 4 * scale * gain ** 2), "coefficients", key)
                for i in range(3):
                    cs = [torch.zeros(n, dtype=F64) for _ in range(3)]
                    cs[i] = x
                    want = ref.iswt_apply(w, [to_np(c)[:, None] for c in cs])[:, 0]
                    close(rec, ptwt.iswt(cs, w), want, tol_for(F64, 4 * scale * gain ** 2), "synthesis", key)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
