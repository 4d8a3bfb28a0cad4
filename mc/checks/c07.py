"""C07: cwt equals its definition for every scale list."""
import itertools

import numpy as np
import pywt
import torch

import ptwt
from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

from .. import ref
from ..util import F32, F64, call, close, dense, to_np

LEVEL = "exploration"
RULE = (
    "all ordered scale sequences (with repetition) up to a length over an alphabet of "
    "integer, fractional, tiny and large scales, for every wavelet family, signal "
    "length, precision, number type and container of the scales; each row is compared "
    "with the convolution sum of its own scale; each signal length also with the "
    "identity batch; non-trivial: at least one row compared, or the documented "
    "ValueError for a scale below the grid observed"
)
ASSUMPTIONS = [
    "pywt's wavefun and scale2frequency define the sampled wavelets and frequencies",
    "cwt computes in double precision whatever the dtype of the data",
]

WAVELETS = ["mexh", "morl", "gaus1", "gaus2", "gaus5", "gaus8", "cgau1", "cgau2", "cgau5", "cgau8",
            "cmor1.5-1.0", "cmor0.7-2.0", "shan1.5-1.0", "shan0.5-2.0", "fbsp1-1.5-1.0", "fbsp2-1.0-0.8",
            "haar", "db2", "db5", "sym4", "coif2", "dmey"]
SCALES = (1, 2, 3, 8, 0.7, 2.5, 5.3, 16.25, 40)
TINY = (1e-3, 0.01, 0.05, 0.1, 0.13, 0.3)


def units(tier, seed):
    res = []
    for w in WAVELETS:
        for n in (1, 2, 7, 16, 33):
            res.append(dict(kind="seq", wavelet=w, n=n))
        res.append(dict(kind="grid", wavelet=w))
    for i in range(len(LEARN)):
        res.append(dict(kind="learn", pair=i))
    return res


def wave_of(name):
    return pywt.DiscreteContinuousWavelet(name)


_PSI = {}


def sampled(name, precision):
    """(integrated, possibly conjugated wavelet; grid)."""
    key = (name, precision)
    if key not in _PSI:
        w = wave_of(name)
        fun = w.wavefun(precision)
        psi, x = (fun[0], fun[1]) if len(fun) == 2 else (fun[1], fun[2])
        step = x[1] - x[0]
        ip = np.cumsum(psi) * step
        if isinstance(w, pywt.ContinuousWavelet) and w.complex_cwt:
            ip = np.conj(ip)
        _PSI[key] = (ip, x)
    return _PSI[key]


def row(x, scale, name, precision):
    """Reference of one scale on (..., n) data; None if the scale is too small."""
    ip, grid = sampled(name, precision)
    step = grid[1] - grid[0]
    j = np.floor(np.arange(scale * (grid[-1] - grid[0]) + 1) / (scale * step)).astype(int)
    j = j[j < len(ip)]
    taps = ip[j][::-1]
    n = x.shape[-1]
    if len(taps) < 2:
        return None
    full = np.stack([np.convolve(v, taps) for v in x.reshape(-1, n)])
    coef = -np.sqrt(scale) * np.diff(full, axis=-1)
    d = (coef.shape[-1] - n) / 2.0
    lo = int(np.floor(d))
    coef = coef[:, lo: lo + n]
    return coef.reshape(x.shape)


def expect(rec, key, x, scales, wavelet, name, precision=12, period=None, freq=True, tol=1e-9):
    kw = {}
    if precision != 12:
        kw["precision"] = precision
    if period is not None:
        kw["sampling_period"] = period
    xn = to_np(x).astype(np.float64)
    plain = [float(s) for s in np.atleast_1d(np.asarray(scales))]
    rows = [row(xn, s, name, precision) for s in plain]
    got, exc = call(ptwt.cwt, x, scales, wavelet, **kw)
    rec.case(key)
    if any(r is None for r in rows):
        rec.check(isinstance(exc, ValueError), lambda: f"a too small scale gave {got if exc is None else exc!r}", key)
        return
    rec.check(exc is None, lambda: f"cwt raised {exc!r}", key)
    rec.check(isinstance(got, tuple) and len(got) == 2, "no pair", key)
    out, freqs = got
    want = np.stack(rows)
    scale = max(1.0, float(np.abs(want).max()))
    w = wave_of(name)
    cplx = isinstance(w, pywt.ContinuousWavelet) and w.complex_cwt
    rec.check(out.is_complex() == bool(cplx), lambda: f"result dtype {out.dtype}", key)
    close(rec, out, want, tol * scale, "coefficients", key)
    if freq:
        wf = pywt.scale2frequency(w, np.asarray(plain), precision) / (period or 1.0)
        wf = np.atleast_1d(wf)
        close(rec, np.asarray(freqs), wf, 1e-9 * max(1.0, float(np.abs(wf).max())), "frequencies", key)


def run_seq(unit, rec):
    w, n = unit["wavelet"], unit["n"]
    top = 2 if rec.tier == "quick" else 3
    x = dense((2, n), F64, kind=n)
    base = SCALES if n != 33 or rec.tier != "quick" else SCALES[:8]
    alphabet = base + ((0.1,) if n == 7 else ())
    prec = 12 if n != 2 else 9
    if rec.tier == "quick" and w not in ("mexh", "cmor1.5-1.0", "db2"):
        prec = 12 if n in (7,) else 9
    for k in range(1, top + 1):
        for seq in itertools.product(alphabet, repeat=k):
            expect(rec, (w, n, seq, prec), x, np.array(seq, dtype=float), w, w, precision=prec)
    if n in (7, 16):
        for seq in itertools.product((1, 2.5, 8, 3), repeat=3):
            expect(rec, (w, n, seq, 8), x, np.array(seq, dtype=float), w, w, precision=8)
        for seq in itertools.permutations((1, 2, 3, 8, 16), 5):
            expect(rec, (w, n, seq, 8), x, np.array(seq), w, w, precision=8)


def run_grid(unit, rec):
    w = unit["wavelet"]
    obj = wave_of(w)
    # identity batches decide every signal value
    for n in (1, 2, 3, 5, 8, 13, 21):
        for s in (1, 2.5, 6, 0.8):
            expect(rec, (w, n, s, "identity"), torch.eye(n, dtype=F64), np.array([s]), w, w, precision=10)
    # number types and containers
    x = dense((3, 19), F64, kind=1)
    for vals in ((1, 2, 5), (4,), (7, 3, 3, 1)):
        forms = {
            "int64": np.array(vals), "int32": np.array(vals, dtype=np.int32),
            "f64": np.array(vals, dtype=np.float64), "f32": np.array(vals, dtype=np.float32),
            "ti": torch.tensor(vals), "tf64": torch.tensor(vals, dtype=F64), "tf32": torch.tensor(vals, dtype=F32),
            "list": list(vals), "tuple": tuple(vals),
            "strided": np.repeat(np.array(vals, dtype=float), 2)[::2],
            "uint8": np.array(vals, dtype=np.uint8), "int16": np.array(vals, dtype=np.int16),
        }
        for fname, sc in forms.items():
            expect(rec, (w, vals, fname), x, sc, w, w, precision=10, tol=1e-7 if fname.endswith("f32") else 1e-9)
            expect(rec, (w, vals, fname, "object"), x, sc, obj, w, precision=10,
                   tol=1e-7 if fname.endswith("f32") else 1e-9)
    for s in (3, 2.5, np.float64(4), np.int64(5)):
        expect(rec, (w, "scalar", repr(s)), x, s, w, w, precision=10)
    # fractional f32-exact scales
    for sc in (np.array([0.5, 1.25, 6.75], dtype=np.float32), torch.tensor([0.5, 1.25], dtype=F32)):
        expect(rec, (w, "fractional", repr(sc)), x, sc, w, w, precision=10, tol=1e-7)
    # tiny scales: the documented error or the right numbers
    for s in TINY:
        for other in (None, 2.0):
            sc = np.array([s] if other is None else [other, s])
            expect(rec, (w, "tiny", s, other), x, sc, w, w, precision=10)
    # shapes and dtypes
    for batch in ((), (1,), (2,), (1, 1), (2, 3), (2, 1, 3)):
        for dt in (F64, F32):
            expect(rec, (w, batch, str(dt)), dense(batch + (17,), dt, kind=2), np.array([1.0, 3.0, 2.0]), w, w,
                   precision=10, tol=1e-9 if dt == F64 else 2e-4)
    # precisions, sampling periods
    for p in (5, 8, 10, 12) if rec.tier == "quick" else range(4, 14):
        for period in (None, 1.0, 0.5, 3.7, 1e-3):
            expect(rec, (w, "precision", p, period), x, np.array([1.0, 4.5]), w, w, precision=p, period=period)
    # long signals and many scales
    for n in (64, 100, 255, 256, 257, 1000, 1025, 2049, 4097, 8193, 20001, 65537):
        expect(rec, (w, "long", n), dense((2, n), F64, kind=3), np.array([1.0, 7.5, 31.0, 2.0]), w, w, precision=10,
               tol=1e-8)
    for batch in ((70,), (300,), (1030,), (33, 35), (4100,)):
        expect(rec, (w, "batch", batch), dense(batch + (9,), F64, kind=3), np.array([1.0, 2.0]), w, w, precision=8)
    for s in (64.0, 100.0, 257.5):
        for n in (11, 600):
            expect(rec, (w, "large scale", s, n), dense((2, n), F64, kind=3), np.array([s, 1.0]), w, w, precision=10, tol=1e-8)
    expect(rec, (w, "many"), dense((40,), F64, kind=3), np.arange(1, 40), w, w, precision=8)
    expect(rec, (w, "descending"), dense((40,), F64, kind=3), np.arange(40, 0, -1), w, w, precision=8)
    long_lists(rec, w)
    # magnitudes
    for sc in (0.0, 1e-20, 1e-6, 1e8, 1e20):
        xs = dense((2, 12), F64, kind=2) * sc
        want = np.stack([row(to_np(xs), s, w, 10) for s in (1.0, 3.0)])
        key = (w, "magnitude", sc)
        rec.case(key)
        close(rec, ptwt.cwt(xs, np.array([1.0, 3.0]), w, precision=10)[0], want,
              1e-10 * max(float(np.abs(want).max()), 1e-300), "coefficients", key)
    # pywt's own implementation as a second opinion
    xs = dense((2, 24), F64, kind=8)
    if not isinstance(obj, pywt.ContinuousWavelet):
        return
    for sc in ((1.0, 2.0, 3.5), (9.0, 1.0)):
        a, fa = pywt.cwt(to_np(xs), np.array(sc), w, sampling_period=0.25)
        b, fb = ptwt.cwt(xs, np.array(sc), w, sampling_period=0.25)
        key = (w, "pywt", sc)
        rec.case(key)
        close(rec, b, a, 1e-8 * max(1.0, float(np.abs(a).max())), "coefficients", key)
        close(rec, fb, fa, 1e-9 * float(np.abs(fa).max()), "frequencies", key)


def long_lists(rec, w):
    """Scale lists of every length class, order and spacing."""
    x = dense((30,), F64, kind=5)
    lengths = (9, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129) if rec.tier == "quick" else tuple(range(9, 140)) + (
        200, 255, 256, 257, 300, 512, 513)
    for k in lengths:
        base = np.arange(1, k + 1, dtype=float)
        forms = {
            "ascending": np.minimum(base, 25.0),
            "descending": 1 + 20 * base[::-1] / k,
            "linspace": np.linspace(20, 2, k),
            "geometric": np.geomspace(1, 20, k),
            "alternating": np.where(np.arange(k) % 2 == 0, 3.0, 1.5),
            "constant": np.full(k, 2.0),
            "cyclic": 1.0 + (np.arange(k) * 7) % 11,
        }
        if rec.tier == "quick" and k not in (17, 65, 129):
            forms = {n: forms[n] for n in ("cyclic", "linspace")}
        for name, sc in forms.items():
            expect(rec, (w, "long list", k, name), x, sc, w, w, precision=8)


LEARN = [("shan", b, c) for b, c in ((1.5, 1.0), (0.5, 2.0), (0.1, 0.4), (1.0, 0.5))] + [
    ("cmor", b, c) for b, c in ((1.5, 1.0), (0.7, 2.0), (2.5, 0.5), (0.3, 1.2))]


def run_learn(unit, rec):
    fam, b, c = LEARN[unit["pair"]]
    name = f"{fam}{b}-{c}"
    cls = _ShannonWavelet if fam == "shan" else _ComplexMorletWavelet
    shared = cls(name)
    for n in (1, 7, 16, 33):
        x = dense((2, n), F64, kind=n)
        for k in (1, 2):
            for seq in itertools.product((1, 2, 5.3, 0.7, 8), repeat=k):
                for label, wav in (("new", cls(name)), ("shared", shared)):
                    expect(rec, (name, n, seq, label), x, np.array(seq, dtype=float), wav, name,
                           precision=10, tol=1e-8)
    # changed parameters act like the wavelet of the new name
    for b2, c2 in ((1.5, 1.0), (0.90625, 1.6875), (2.25, 0.640625)):
        with torch.no_grad():
            shared.bandwidth_par.fill_(b2 ** 0.5)
            shared.center_par.fill_(c2 ** 0.5)
        x = dense((2, 20), F64, kind=4)
        expect(rec, (name, "to", b2, c2), x, np.array([1.0, 3.0, 2.5]), shared, f"{fam}{b2}-{c2}",
               precision=10, tol=1e-8)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


def cost(unit):
    return {"seq": unit.get("n", 1), "grid": 60, "learn": 40}[unit["kind"]]


_ = ref
