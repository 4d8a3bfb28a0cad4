"""C01: wavedec equals the filter bank on every wavelet, mode, length, level."""
import numpy as np
import torch

import ptwt

from .. import ref
from ..util import DT, F64, call, close, dense, to_np, tol_for

LEVEL = "exploration"
RULE = (
    "every (wavelet, mode, length, level, dtype) of the bounded space is executed on "
    "the identity batch, which decides every signal value of a linear map, and on "
    "structured and dense signals; non-trivial: the transform answered and all its "
    "coefficients were compared with the index-sum reference (a refusal is only "
    "accepted where torch cannot serve the padding and is not counted as distinct)"
)
ASSUMPTIONS = [
    "the transform is linear in its data (decided separately by C22)",
    "pywt's filter tables are the definition of the wavelets",
]


def lengths(f, tier):
    top = 26 if tier == "quick" else 70
    res = set(range(1, top + 1))
    span = 3 if tier == "quick" else 6
    for c in (f - 1, f, 2 * (f - 1), 2 * f, 4 * (f - 1)):
        res |= {n for n in range(c - span, c + span + 1) if n >= 1}
    return sorted(res)


def units(tier, seed):
    res = []
    for w in ref.DISCRETE:
        for mode in ref.MODES:
            res.append(dict(kind="basis", wavelet=w, mode=mode))
    for w in ("haar", "db2", "db3", "sym5", "bior2.4", "coif2", "rbio3.1", "db10"):
        for mode in ref.MODES:
            res.append(dict(kind="long", wavelet=w, mode=mode))
    for w in ("haar", "db2", "bior1.3", "sym4"):
        res.append(dict(kind="values", wavelet=w))
    return res


def cost(unit):
    return ref.flen(unit["wavelet"]) + (60 if unit["kind"] != "basis" else 0)


def compare(rec, x, w, mode, level, want, refusable, key, dtype, scale):
    """One execution against the expected coefficient list."""
    got, exc = call(ptwt.wavedec, x, w, mode=mode, level=level)
    if exc is not None:
        rec.case(key, nontrivial=False)
        rec.check(refusable, lambda: f"wavedec raised {exc!r}", key)
        rec.count("refusals")
        return
    rec.case(key)
    rec.check(isinstance(got, list), "wavedec did not return a list")
    rec.check(len(got) == len(want), lambda: f"{len(got)} instead of {len(want)} arrays")
    tol = tol_for(dtype, scale)
    for i, (g, m) in enumerate(zip(got, want)):
        rec.check(g.dtype == dtype, lambda: f"dtype {g.dtype}")
        close(rec, g, m, tol, f"coefficient array {i}", key)


def run_basis(unit, rec):
    w, mode = unit["wavelet"], unit["mode"]
    f = ref.flen(w)
    gain = ref.gain(w)
    top = 3 if rec.tier == "quick" else 5
    for n in lengths(f, rec.tier):
        auto = ref.max_level(n, f)
        for level in list(range(0, top + 1)) + [None]:
            lev = auto if level is None else level
            if n > 60 and level not in (1, 3, None):
                continue
            mats = ref.wavedec_mats(w, n, mode, lev)
            for dname in ("f64", "f32"):
                if dname == "f32" and level not in (2, None):
                    continue
                dt = DT[dname]
                key = (w, mode, n, level, dname, "identity")
                compare(
                    rec,
                    torch.eye(n, dtype=dt),
                    w,
                    mode,
                    level,
                    [m.T for m in mats],
                    ref.may_refuse_levels(n, f, mode, lev),
                    key,
                    dt,
                    gain ** max(lev, 1),
                )
        # one unbatched dense signal
        lev = 2
        x = dense((n,), F64, kind=n)
        xn = to_np(x)
        compare(
            rec,
            x,
            w,
            mode,
            lev,
            [m @ xn for m in ref.wavedec_mats(w, n, mode, lev)],
            ref.may_refuse_levels(n, f, mode, lev),
            (w, mode, n, lev, "f64", "dense"),
            F64,
            4 * gain ** lev,
        )


def run_long(unit, rec):
    w, mode = unit["wavelet"], unit["mode"]
    f = ref.flen(w)
    sizes = [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 777,
             1000, 1023, 1024, 1025, 2047, 2049, 4096, 4099, 8191, 8192, 8193, 16384, 20001,
             32769, 65537, 131075]
    if rec.tier != "quick":
        sizes += [16383, 16385, 32768, 65535, 65536, 100000, 131072, 262145, 1000003]
    for n in sizes:
        for level in (1, 4, None):
            lev = ref.max_level(n, f) if level is None else level
            for dname in ("f64", "f32"):
                dt = DT[dname]
                x = dense((n,), dt, kind=1)
                want = ref.wavedec_long(w, to_np(x).astype(np.float64), mode, lev)
                compare(rec, x, w, mode, level, want,
                        ref.may_refuse_levels(n, f, mode, lev),
                        (w, mode, n, level, dname, "long"), dt,
                        4 * ref.gain(w) ** min(lev, 6) * 2 ** (lev / 2))
    for b in (1, 2, 7, 64, 65, 129, 300, 1025):
        for n in (16, 33):
            x = dense((b, n), F64, kind=2)
            want = ref.wavedec_long(w, to_np(x), mode, 2)
            compare(rec, x, w, mode, 2, want, ref.may_refuse_levels(n, f, mode, 2),
                    (w, mode, n, 2, "f64", "batch", b), F64, 4 * ref.gain(w) ** 2)
    # large batches, also of long signals
    for b, n in (((2049,), 12), ((4100,), 9), ((70, 65), 11), ((33,), 4097), ((3, 5), 9001), ((600,), 257), ((66000,), 7)):
        x = dense(b + (n,), F64, kind=2)
        want = ref.wavedec_long(w, to_np(x), mode, 1)
        compare(rec, x, w, mode, 1, want, ref.may_refuse_levels(n, f, mode, 1),
                (w, mode, n, 1, "f64", "batch", b), F64, 4 * ref.gain(w))


def patterns(n):
    i = np.arange(n)
    yield "zero", np.zeros(n)
    yield "one", np.ones(n)
    yield "minus", -np.ones(n)
    yield "alternating", (-1.0) ** i
    yield "ramp", i.astype(float)
    yield "ints", ((i * 7919) % 13 - 6).astype(float)
    yield "step", (i >= n // 2).astype(float)
    yield "first", (i == 0).astype(float)
    yield "last", (i == n - 1).astype(float)
    yield "sparse", np.where(i % 5 == 2, 3.0, 0.0)
    yield "dense", np.sin(i * 1.7 + 0.3)


def run_values(unit, rec):
    w = unit["wavelet"]
    f = ref.flen(w)
    for mode in ref.MODES:
        for n in (1, 2, 5, 12, f + 3, 31):
            for name, x in patterns(n):
                for scale in (1.0, 1e-30, 1e-12, 1e-6, 1e-3, 255.0, 1e5, 1e12, 1e30):
                    for dname in ("f64", "f32"):
                        dt = DT[dname]
                        xs = torch.tensor(x * scale, dtype=dt)
                        want = ref.wavedec_long(w, to_np(xs).astype(np.float64), mode, 2)
                        top = max(float(np.abs(to_np(xs)).max()), 0.0)
                        compare(rec, xs, w, mode, 2, want,
                                ref.may_refuse_levels(n, f, mode, 2),
                                (w, mode, n, name, scale, dname), dt,
                                top * ref.gain(w) ** 2)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
