"""C22: transforms are linear over all magnitudes."""
import itertools
import warnings

import numpy as np
import torch

from .. import ref
from ..ops import OPS
from .c20 import rebuild
from ..util import F32, F64, dense, leaves, structure, tmap, to_np

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of transforms, structured signals, scales, pairs of signals, positions of a "
             "non-finite sample and gradient modes; oracle: linearity and the index sets of the filter windows")
RULE = (
    "one case per compared call: (transform, direction, wavelet, mode, shape, dtype) x every signal of the alphabet "
    "(impulses, constant, alternating, ramp, sparse, steps, dense, mixed magnitudes) x every power-of-two scale, every pair of "
    "signals with equal and very different magnitudes, every position of a NaN or infinity in the data and in the "
    "coefficients, and every gradient mode; non-trivial: the results were compared"
)
ASSUMPTIONS = ["scaling by powers of two is exact in floating point, so a scaled result is compared to 1e-12 (1e-5)"]
FRESH = True

EPS = {F64: 2.3e-16, F32: 1.2e-7, torch.complex128: 2.3e-16, torch.complex64: 1.2e-7}
SCALES = [-1.0] + [2.0 ** k for k in (-99, -70, -50, -33, -20, -7, 7, 20, 33, 50, 70, 99)]


def quiet(fn, *args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args)


_OBJECTS: dict = {}


def forward(op, x, w, mode, level):
    """The transform; matrix objects are kept for a unit (C10: they behave like new ones)."""
    if not hasattr(op, "make_dec"):
        return quiet(op.fwd, x, w, mode, level)
    key = (op.name, w, mode, level)
    if key not in _OBJECTS:
        _OBJECTS[key] = op.make_dec(w, mode, level)
    return quiet(_OBJECTS[key], x)


def backward(op, c, w, mode):
    if not hasattr(op, "make_rec"):
        return quiet(op.inv, c, w, mode)
    key = (op.name, w, "inverse")
    if key not in _OBJECTS:
        _OBJECTS[key] = op.make_rec(w)
    return quiet(_OBJECTS[key], c)


def signals(shape, dtype):
    """The alphabet: dictionary name -> tensor of the shape."""
    n = int(np.prod(shape[1:]))
    i = torch.arange(n, dtype=F64)
    one = {
        "dense": dense((n,), F64, 1),
        "constant": torch.ones(n, dtype=F64) * 0.75,
        "alternating": 1 - 2 * (i % 2),
        "ramp": i / n,
        "step": (i >= n // 2).double(),
        "first": (i == 0).double(),
        "middle": (i == n // 2).double(),
        "last": (i == n - 1).double(),
        "sparse": (i % 5 == 3).double() * dense((n,), F64, 2),
        "counts": torch.floor(i * i % 7) * 1.0,
        "decades": dense((n,), F64, 3) * 10.0 ** (-(i % 6)),
        "zero": torch.zeros(n, dtype=F64),
    }
    names = list(one)
    res = {}
    for k, name in enumerate(names):
        # every batch entry is a different signal
        rows = [one[names[(k + 3 * b) % len(names)]] for b in range(shape[0])]
        res[name] = torch.stack(rows).reshape(shape).to(dtype)
    res["zero"] = torch.zeros(shape, dtype=dtype)
    return res


def structured(coeffs, name, dtype):
    """Coefficients: every tensor holds a signal of the alphabet."""
    def one(k, t):
        if t.numel() == 0:
            return t
        alpha = signals((1, max(t.numel(), 1)), F64)
        names = [n for n in alpha if n != "zero"]
        pick = "zero" if name == "zero" else names[(names.index(name) + k) % len(names)]
        return alpha[pick].reshape(t.shape).to(dtype)

    return rebuild(coeffs, [one(k, t) for k, (_, t) in enumerate(leaves(coeffs))])


def compare(rec, got, want, what, key, rtol, noise=0.0):
    """Every tensor of got against want, error relative to its largest entry.

    noise: magnitude of the data, which rounding errors are relative to.
    """
    if structure(got) != structure(want):
        rec.fail(f"{what}: structure {structure(got)} instead of {structure(want)}"[:700], key)
    for (path, g), (_, w) in zip(leaves(got), leaves(want)):
        if g.numel() == 0 or torch.equal(g, w):
            continue
        top = float(w.abs().max())
        err = (g - w).abs()
        bad = ~(err <= max(rtol * top, 40 * EPS[g.dtype] * noise))
        if bool(bad.any()):
            pos = tuple(int(v) for v in torch.nonzero(bad)[0])
            rec.fail(f"{what} at {path}{pos}: {g[pos].item()!r} instead of {w[pos].item()!r} "
                     f"(error {float(err[pos]):.3g}, largest entry {top:.3g})", key)
    rec.case(key)


def add(a, b, fa=1.0, fb=1.0):
    return rebuild(a, [fa * t + fb * u for (_, t), (_, u) in zip(leaves(a), leaves(b))])


def size_of(x):
    return max([float(t.abs().max()) for _, t in leaves(x) if t.numel()] or [0.0])


class Map:
    """A transform or inverse as a map of structures."""

    def __init__(self, op, w, mode, level, shape, dtype, inverse):
        self.op, self.w, self.mode, self.level = op, w, mode, level
        self.shape, self.dtype, self.inverse = shape, dtype, inverse
        self.label = f"{op.name}{'^-1' if inverse else ''} {w} {mode} level {level} {tuple(shape)} {str(dtype)[6:]}"
        self.key = (op.name, inverse, w, mode, level, shape, str(dtype))
        if inverse:
            self.proto = forward(op, dense(shape, dtype, 1), w, mode, level)

    def __call__(self, x):
        if self.inverse:
            return backward(self.op, x, self.w, self.mode)
        return forward(self.op, x, self.w, self.mode, self.level)

    def alphabet(self):
        if not self.inverse:
            return signals(self.shape, self.dtype)
        return {n: structured(self.proto, n, self.dtype) for n in signals((1, 4), F64)}


# ------------------------------------------------------------ linearity
def run_linear(unit, rec):
    op, w = OPS[unit["op"]], unit["wavelet"]
    quick = rec.tier == "quick"
    for mode, shape, dtype, inverse in itertools.product(unit["modes"], unit["shapes"], (F64, F32), (False, True)):
        if inverse and not op.has_inverse:
            continue
        if inverse and mode not in unit["modes"][:1]:
            continue
        m = Map(op, w, mode, unit["level"], tuple(shape), dtype, inverse)
        alpha = m.alphabet()
        base = {n: m(x) for n, x in alpha.items()}
        for path, t in leaves(base["zero"]):
            if bool((t != 0).any()) or bool(torch.isnan(t).any()):
                rec.fail(f"{m.label}: a zero signal gives {t.abs().max().item()!r} at {path}", m.key + ("zero",))
        rec.case(m.key + ("zero",))
        rtol = 1e-12 if dtype is F64 else 1e-5
        if op.name.startswith("cwt"):
            rtol = 1e-11 if dtype is F64 else 1e-5
        for (name, x), s in itertools.product(alpha.items(), SCALES):
            if quick and s not in (-1.0, 2.0 ** -99, 2.0 ** -33, 2.0 ** 33, 2.0 ** 99) and name not in ("dense", "sparse"):
                continue
            if quick and unit["heavy"] and name not in ("dense", "sparse", "constant", "middle"):
                continue
            compare(rec, m(tmap(lambda t: t * s, x)), tmap(lambda t: t * s, base[name]),  # noqa: B023
                    f"{m.label}: {name} scaled by {s}", m.key + (name, s), rtol, abs(s) * size_of(x))
        names = list(alpha)
        if unit["heavy"]:
            names = ["dense", "constant", "middle", "sparse", "alternating"]
        for a, b in itertools.combinations(names, 2):
            for fa, fb in ((1.0, 1.0), (1.0, -2.0 ** -24), (2.0 ** -24, 1.0), (2.0 ** 60, 2.0 ** 60), (-2.0 ** -60, 2.0 ** -60)):
                if quick and fa not in (1.0, 2.0 ** -24) and a != "dense":
                    continue
                if dtype is F32 and min(abs(fa), abs(fb)) == 2.0 ** -24:
                    continue
                got = m(add(alpha[a], alpha[b], fa, fb))
                want = add(base[a], base[b], fa, fb)
                noise = max(abs(fa) * size_of(alpha[a]), abs(fb) * size_of(alpha[b]))
                compare(rec, got, want, f"{m.label}: {fa} {a} + {fb} {b}", m.key + (a, b, fa, fb),
                        100 * EPS[dtype] if not op.name.startswith("cwt") else 1e4 * EPS[dtype], noise)


# ------------------------------------------------------------ locality
def seen(a, b):
    return (a.astype(np.float32) @ b.astype(np.float32)) > 0


def window(n, f, mode, kind, boundary):
    """Boolean (m, n): may entry k of a level see sample i?"""
    if kind == "padded":
        return ref.analysis((1.0,) * f, n, mode) != 0
    # boundary matrices: interior rows have a band, the others may see everything
    ne = n + n % 2
    m = ne // 2
    a = np.zeros((m, ne), dtype=bool)
    for k in range(m):
        lo, hi = 2 * k + f // 2 - f + 1, 2 * k + f // 2
        if lo < 0 or hi >= ne:
            a[k] = True
        else:
            a[k, lo:hi + 1] = True
    if ne > n:
        ext = np.zeros((ne, n), dtype=bool)
        ext[:n] = np.eye(n, dtype=bool)
        i = ref.ext_index(n, mode, n)
        if i is not None:
            ext[n, i] = True
        a = seen(a, ext)
    assert boundary
    return a


def swt_window(n, f, level):
    res = np.eye(n, dtype=bool)
    for lev in range(1, level + 1):
        a = ref.swt_matrix((1.0,) * f, n, lev) != 0
        res = seen(a, res)
    return res


def kind_of(op):
    return "matrix" if op.name.startswith("matrix") or getattr(op, "boundary", False) else "padded"


def level_windows(op, sides, f, mode, levels):
    """Per level (finest first) and axis the index sets of its coefficients."""
    res, cur = [], [np.eye(n, dtype=bool) for n in sides]
    if op.name == "swt":
        return [[swt_window(sides[0], f, lev)] for lev in range(1, levels + 1)]
    mode = "zero" if mode in (None, "boundary") else mode
    for _ in range(levels):
        nxt = []
        for c in cur:
            a = window(c.shape[0], f, mode, kind_of(op), True)
            nxt.append(seen(a, c))
        cur = nxt
        res.append(cur)
    return res


def allowed(op, wins, pos):
    """Boolean array of the coefficients of a level that may see the sample."""
    parts = [w[:, p] for w, p in zip(wins, pos)]
    if op.name in ("matrix2ns", "matrix2nsgs", "packet2b"):
        # a border in one direction may touch everything
        return None
    res = parts[0]
    for p in parts[1:]:
        res = res[..., None] & p
    return res


def run_local(unit, rec):
    """One NaN or infinite sample at every position of one batch entry."""
    op, w = OPS[unit["op"]], unit["wavelet"]
    f = ref.flen(w)
    level = unit["level"]
    for mode, shape, dtype in itertools.product(unit["modes"], unit["shapes"], (F64, F32)):
        shape = tuple(shape)
        sides = shape[1:]
        x = dense(shape, dtype, 1)
        base = forward(op, x, w, mode, level)
        wins = level_windows(op, sides, f, mode, level)
        positions = list(itertools.product(*(range(n) for n in sides)))
        if unit.get("few"):
            positions = list(itertools.product(*(sorted({0, n // 3, n // 2, n - 1}) if n > 9 else (n // 2,) for n in sides)))
        for pos, value in itertools.product(positions, (float("nan"), float("inf"), -float("inf"), 2.0 ** 60)):
            if value == 2.0 ** 60 and not unit.get("few") and pos != positions[len(positions) // 3]:
                continue
            if value == -float("inf") and pos != positions[len(positions) // 2]:
                continue
            key = ("local", op.name, w, mode, shape, str(dtype), pos, str(value))
            e = torch.zeros(shape, dtype=dtype)
            e[(0,) + pos] = 1.0
            y = x.clone()
            y[(0,) + pos] = value
            got = forward(op, y, w, mode, level)
            resp = forward(op, e, w, mode, level)
            if structure(got) != structure(base):
                rec.fail(f"{op.name}: other structure with {value}", key)
            for (path, g), (_, b), (_, r) in zip(leaves(got), leaves(base), leaves(resp)):
                check_local(rec, op, f"{op.name} {w} {mode} {shape}: {value} at {pos}", path, g, b, r, key,
                            allow_at(op, path, wins, pos, level), value == 2.0 ** 60)
            rec.case(key)


def depth_of(op, path, level):
    """Level a tensor belongs to (finest is 1); 0 for the root of a tree."""
    if op.name.startswith("packet"):
        return len(path[0])
    return level if path[0] == 0 else level + 1 - path[0]


def allow_at(op, path, wins, pos, level):
    d = depth_of(op, path, level)
    if d == 0:
        return None
    return allowed(op, wins[d - 1], pos)


def check_local(rec, op, what, path, g, b, r, key, allow, big=False):
    gn, bn, rn = to_np(g), to_np(b), to_np(r)
    if gn.shape[0] > 1:
        if not np.isfinite(gn[1:]).all() or np.abs(gn[1:] - bn[1:]).max(initial=0.0) > 1e-4:
            rec.fail(f"{what} reaches another batch entry in {path}", key)
    fin = np.isfinite(gn[0])
    hit = np.abs(rn[0]) > 1e-6
    if not big and (fin & hit).any():
        rec.fail(f"{what} does not reach a coefficient that depends on it in {path} at "
                 f"{[int(v) for v in np.argwhere(fin & hit)[0]]}", key)
    if allow is not None:
        far = ~allow
        if (~fin & far).any():
            rec.fail(f"{what} reaches a coefficient whose filter does not see it in {path} at "
                     f"{[int(v) for v in np.argwhere(~fin & far)[0]]}", key)
        if far.any():
            err = np.abs(np.where(far, gn[0] - bn[0], 0)).max()
            if err > (1e-12 if gn.dtype == np.float64 else 1e-4) * max(np.abs(bn[0]).max(), 1e-30):
                rec.fail(f"{what} changes a coefficient whose filter does not see it in {path}", key)


def run_local_inverse(unit, rec):
    """One NaN or infinite coefficient at every position."""
    op, w = OPS[unit["op"]], unit["wavelet"]
    f = ref.flen(w)
    level = unit["level"]
    for mode, shape, dtype in itertools.product(unit["modes"][:1], unit["shapes"][:1], (F64, F32)):
        shape = tuple(shape)
        proto = forward(op, dense(shape, dtype, 1), w, mode, level)
        base = backward(op, proto, w, mode)
        size = base.shape[1:]
        where = []
        few = unit.get("few")
        for idx, (path, t) in enumerate(leaves(proto)):
            if op.name.startswith("packet") and len(path[0]) != level:
                continue
            where += [(idx, path, p) for p in itertools.product(
                *(sorted({0, n // 3, n - 1}) if few else range(n) for n in t.shape[1:]))]
        if rec.tier == "quick" and len(where) > 120:
            where = where[:: len(where) // 120 + 1]
        for idx, path, pos in where:
            for value in (float("nan"), float("inf"), 2.0 ** 60):
                key = ("localinv", op.name, w, mode, shape, str(dtype), path, pos, str(value))
                ts = [t.clone() for _, t in leaves(proto)]
                es = [torch.zeros_like(t) for t in ts]
                ts[idx][(0,) + pos] = value
                es[idx][(0,) + pos] = 1.0
                got = backward(op, rebuild(proto, ts), w, mode)
                resp = backward(op, rebuild(proto, es), w, mode)
                d = depth_of(op, path, level)
                allow = None
                if kind_of(op) == "padded" and op.name != "swt":
                    parts = []
                    for n, p in zip(size, pos):
                        # y[t] sees c[k] of level d iff 2^d k - (2^d - 1)(f - 2) <= t <= 2^d k + (2^d - 1)
                        t = np.arange(n)
                        lo, hi = 2 ** d * p - (2 ** d - 1) * (f - 2), 2 ** d * p + 2 ** d - 1
                        parts.append((t >= lo) & (t <= hi))
                    allow = parts[0]
                    for q in parts[1:]:
                        allow = allow[..., None] & q
                check_local(rec, op, f"inverse {op.name} {w} {mode} {shape}: {value} at {pos} of {path}", path, got, base, resp,
                            key, allow, value == 2.0 ** 60)
                rec.case(key)


# ------------------------------------------------------------ gradient modes
def run_modes(unit, rec):
    op, w = OPS[unit["op"]], unit["wavelet"]
    for mode, shape, dtype, inverse in itertools.product(unit["modes"], unit["shapes"], (F64, F32), (False, True)):
        if inverse and not op.has_inverse:
            continue
        m = Map(op, w, mode, unit["level"], tuple(shape), dtype, inverse)
        x = m.alphabet()["dense"]
        want = m(x)
        for requires, ctx in itertools.product((False, True), ("plain", "no_grad", "inference", "no_grad+enable", "inner")):
            key = m.key + ("mode", requires, ctx)
            if ctx == "inference":
                with torch.inference_mode():
                    got = m(tmap(lambda t: t.clone().requires_grad_(requires and False), x))
                got = tmap(lambda t: t.clone(), got)
            else:
                y = tmap(lambda t: t.clone().requires_grad_(requires), x)
                if ctx == "plain":
                    got = m(y)
                elif ctx == "no_grad":
                    with torch.no_grad():
                        got = m(y)
                elif ctx == "no_grad+enable":
                    with torch.no_grad(), torch.enable_grad():
                        got = m(y)
                else:
                    # an inner tensor of a graph
                    y = tmap(lambda t: t.clone().requires_grad_(requires) * 1.0, x)
                    got = m(y)
            got = tmap(lambda t: t.detach(), got)
            compare(rec, got, want, f"{m.label}: {ctx}, requires_grad={requires}", key, 1e-12 if dtype is F64 else 1e-5,
                    size_of(x))
        # the data changes the mode of nothing
        rec.check(torch.is_grad_enabled(), "gradients are still enabled", m.key)


# ------------------------------------------------------------ units
HEAVY = ("packet1b", "matrix2ns", "matrix2nsgs", "matrix3", "packet2b", "packet2bs", "packet2", "packet2s", "matrix2", "fswavedec3", "wavedec3")


def plan(name, tier):
    """(wavelets, shapes, level) of a transform."""
    op = OPS[name]
    quick = tier == "quick"
    if name.startswith("cwt"):
        return ["none"], [(2, 16), (3, 21)], None
    if name == "swt":
        return ["haar", "db3", "bior2.2"] + ([] if quick else ["sym5", "coif2"]), [(3, 16), (2, 8)], 2
    if op.ndim == 1:
        wavs = ["haar", "db2", "sym4"] if kind_of(op) == "matrix" else ["haar", "db2", "bior2.4", "rbio1.3"]
        if not quick:
            wavs += ["db6", "coif1"] if kind_of(op) == "matrix" else ["sym7", "coif3", "bior6.8", "db10"]
        return wavs, [(3, 30), (2, 25)] + ([] if quick else [(2, 32), (1, 41)]), 2
    if op.ndim == 2:
        small = name in ("matrix2ns", "matrix2nsgs", "packet2b", "packet2bs")
        wavs = ["haar"] if small and quick else ["haar", "db2"]
        if not quick and not small:
            wavs += ["bior2.2"] if kind_of(op) != "matrix" else ["sym3"]
        return wavs, ([(2, 8, 6), (2, 5, 9)] if small else [(2, 12, 9)] + ([] if quick else [(2, 11, 14)])), 1 if small else 2
    return ["haar", "db2"] if not quick or kind_of(op) != "matrix" else ["haar"], [(2, 6, 5, 7)], 1


def fits(op, w, mode, shape, level):
    if w == "none":
        return True
    f = ref.flen(w)
    if kind_of(op) == "matrix":
        n = min(shape[1:])
        return n >= (f - 1) * 2 ** level or n >= 2 * f
    return not any(ref.may_refuse_levels(n, f, mode, level) for n in shape[1:]) or op.name == "swt"


def units(tier, seed):
    quick = tier == "quick"
    res = []
    for name, op in OPS.items():
        wavs, shapes, level = plan(name, tier)
        for w in wavs:
            modes = list(op.modes)
            for i, mode in enumerate(modes):
                sh = [s for s in shapes if fits(op, w, mode, s, level)]
                if op.ndim > 1 and quick and i:
                    sh = sh[i % max(len(sh), 1):][:1]
                if not sh:
                    continue
                u = dict(op=name, wavelet=w, modes=[mode], shapes=sh, level=level, heavy=name in HEAVY)
                wait = dict(u)
                if name in HEAVY and quick and i not in (0, 2):
                    pass
                else:
                    res.append(dict(kind="linear", **u))
                if op.ndim == 1 or i == 0 or not quick:
                    res.append(dict(kind="modes", **wait))
                if not name.startswith("cwt"):
                    lu = dict(u)
                    if op.ndim == 3:
                        lu["shapes"] = [(2, 4, 3, 4)] if w == "haar" else ([] if quick else [(1, 5, 4, 5)])
                        lu["shapes"] = [s for s in lu["shapes"] if fits(op, w, mode, s, level)]
                    if name in ("packet2", "packet2s") and quick:
                        lu["shapes"] = [(2, 8, 7)]
                    if name in ("matrix2ns", "matrix2nsgs", "packet2b", "packet2bs") and quick and i:
                        continue
                    if lu["shapes"]:
                        res.append(dict(kind="local", **lu))
                        if op.has_inverse and i == 0:
                            res.append(dict(kind="local_inverse", **lu))
    # long filters and long signals: a few positions
    for name, op in OPS.items():
        if name in ("matrix1gs", "matrix2ns", "matrix2nsgs", "packet2b") or name.startswith("cwt"):
            continue
        cases = [("db18", 3), ("db38", 2), ("coif10", 2), ("dmey", 2), ("bior6.8", 5), ("db2", 750)]
        if kind_of(op) == "matrix":
            cases = [("db18", 3), ("sym18", 4), ("db2", 150)]
        if name == "wavedec3":
            # a dense kernel of 36^3 taps needs too much memory
            cases = [("db4", 4)]
        elif op.ndim > 1:
            cases = [("db18", 3), ("sym18", 2), ("db2", 60)] if kind_of(op) != "matrix" else [("db8", 2)]
        for w, times in cases:
            n = times * ref.flen(w) + 2
            n += n % 2
            if op.ndim == 1:
                shapes = [(2, n)]
            elif kind_of(op) == "matrix":
                shapes = [(1,) + (n,) * (op.ndim - 1) + (n + 2,)] if op.ndim == 2 else []
            else:
                shapes = [(1,) + tuple(n if i == j else 6 for i in range(op.ndim)) for j in range(op.ndim)]
            modes = op.modes[:3] if op.ndim == 1 else op.modes[:1]
            if kind_of(op) != "matrix" and op.ndim > 1:
                modes = ("zero",)
            for mode in modes:
                sh = [s for s in shapes if fits(op, w, mode, s, 1)]
                if not sh:
                    continue
                u = dict(op=name, wavelet=w, modes=[mode], shapes=sh, level=1, heavy=True, few=True)
                res.append(dict(kind="local", **u))
                if op.has_inverse and mode == modes[0] and (op.ndim < 3 or w == "db2"):
                    res.append(dict(kind="local_inverse", **u))
    return res


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
