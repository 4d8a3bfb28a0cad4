"""C19: losses of learnable wavelets equal their polynomial definitions."""
import copy
import io
import itertools

import numpy as np
import pywt
import torch

import ptwt
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet, WaveletFilter

from .. import ref
from ..util import F32, F64, to_np

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration of filter banks and of sequences of parameter updates against polynomial definitions"
RULE = (
    "one case per (filter bank, class, dtype, default dtype): all five losses, their components "
    "and gradients are compared with polynomial arithmetic; the losses are polynomials of degree "
    "four in the taps, so all banks with few nonzero taps decide them; one case per history of "
    "parameter updates"
)
ASSUMPTIONS = ["autograd's gradients of elementary operations"]

ZERO_TOL = 1e-8


# ------------------------------------------------------------ definitions
def alternate(h):
    """H(-z) for H(z) = sum h[i] z^-i, up to the common sign (-1)^(len-1)."""
    n = len(h)
    return h * np.array([(-1.0) ** (n - 1 - i) for i in range(n)])


def terms(bank):
    """The error vectors of all losses (works for complex taps)."""
    h0, h1, f0, f1 = bank
    n = len(h0)
    alias = np.convolve(alternate(h0), f0) + np.convolve(alternate(h1), f1)
    pr = np.convolve(h0, f0) + np.convolve(h1, f1)
    pr[n - 1] -= 2
    pf = np.concatenate([f0 - alternate(h1), f1 + alternate(h0)])
    orth = np.array([np.sum(h0[2 * k:] * h0[: max(n - 2 * k, 0)]) if 2 * k < n else 0 * h0[0] for k in range(n // 2 + 1)])
    orth[0] -= 1
    flip = np.concatenate([h0 - f0[::-1], h1 - f1[::-1]])
    return dict(alias=alias, pr=pr, pf=pf, orth=orth, flip=flip)


PARTS = {
    "alias_cancellation_loss": ("alias",),
    "perfect_reconstruction_loss": ("pr",),
    "pf_alias_cancellation_loss": ("pf",),
    "product_filter_loss": ("pr", "alias"),
    "rec_lo_orthogonality_loss": ("orth",),
    "filt_bank_orthogonality_loss": ("flip",),
}
TOTAL = {"ProductFilter": ("pr", "alias"), "SoftOrthogonalWavelet": ("pr", "alias", "flip"), "Plain": ("alias", "pr")}


class Plain(WaveletFilter):
    """A wavelet that only uses the interface."""

    def __init__(self, *bank):
        self.bank = bank

    @property
    def filter_bank(self):
        return ptwt.WaveletTensorTuple(*self.bank)

    def wavelet_loss(self):
        return super().wavelet_loss()

    def __len__(self):
        return len(self.bank[0])


CLASSES = {"ProductFilter": ProductFilter, "SoftOrthogonalWavelet": SoftOrthogonalWavelet, "Plain": Plain}


def value(t, which):
    return sum(np.sum(t[k] * t[k]) for k in which)


def expected(bank, which):
    """Loss, gradient (4, n) by exact complex steps."""
    loss = value(terms(bank), which)
    grad = np.zeros((4, len(bank[0])))
    for i in range(4):
        for j in range(len(bank[0])):
            step = [np.array(b, dtype=complex) for b in bank]
            step[i][j] += 1e-40j
            grad[i, j] = value(terms(step), which).imag / 1e-40
    return loss, grad


def loss_names(cls):
    names = ["alias_cancellation_loss", "perfect_reconstruction_loss", "pf_alias_cancellation_loss", "wavelet_loss"]
    if cls != "Plain":
        names.append("product_filter_loss")
    if cls == "SoftOrthogonalWavelet":
        names += ["rec_lo_orthogonality_loss", "filt_bank_orthogonality_loss"]
    return names


def tolerance(bank, dtype):
    eps = 2.3e-16 if dtype is F64 else 1.2e-7
    big = max(1.0, max(float(np.abs(b).max()) for b in bank))
    return 8 * len(bank[0]) * eps * big * big


def make(cls, bank, dtype):
    return CLASSES[cls](*(torch.tensor(b, dtype=dtype) for b in bank))


def check_bank(rec, obj, cls, bank, dtype, key, grads=False, what=""):
    """All losses of an object that should hold the given filters."""
    bank = [np.array(torch.tensor(b, dtype=dtype).to(F64)) for b in bank]
    t = terms(bank)
    delta = tolerance(bank, dtype)
    fb = obj.filter_bank
    for i, f in enumerate(fb):
        if f.dtype != dtype or not np.array_equal(to_np(f.detach()).astype(float), bank[i]):
            rec.fail(f"{what}filter_bank entry {i} is {f.tolist()}", key)
    if len(obj) != len(bank[0]):
        rec.fail(f"{what}len() is {len(obj)}", key)
    for name in loss_names(cls):
        which = PARTS.get(name) or TOTAL[cls]
        out = getattr(obj, name)()
        full = out
        if isinstance(out, tuple):
            if len(out) != 3:
                rec.fail(f"{what}{name} returned {len(out)} values", key)
            out = out[0]
        if out.dtype != dtype or out.dim():
            rec.fail(f"{what}{name}: {out.dtype}, shape {tuple(out.shape)}", key)
        want = value(t, which)
        tol = delta * (2 * np.sqrt(want * 4 * len(bank[0])) + 4 * len(bank[0]) * delta) + delta * want
        got = float(out.detach())
        if not abs(got - want) <= tol:
            rec.fail(f"{what}{name} is {got} instead of {want} (tolerance {tol:.1e})", key)
        if isinstance(full, tuple):
            a, b = (to_np(p.detach()).astype(float).ravel() for p in full[1:])
            errs = np.concatenate([a, b]) if name.startswith("pf") else a - b
            if not abs(np.sum(errs * errs) - want) <= tol + 2 * delta * want:
                rec.fail(f"{what}{name}: its components belong to the loss {np.sum(errs * errs)} instead of {want}", key)
        if grads and cls != "Plain":
            _, g = expected(bank, which)
            obj.zero_grad()
            out.backward()
            for i, p in enumerate((obj.dec_lo, obj.dec_hi, obj.rec_lo, obj.rec_hi)):
                gi = np.zeros(len(bank[0])) if p.grad is None else to_np(p.grad).astype(float)
                big = max(1.0, max(float(np.abs(b).max()) for b in bank))
                gtol = 40 * delta * big * (1 + float(np.abs(g).max()))
                if not np.all(np.abs(gi - g[i]) <= gtol):
                    rec.fail(f"{what}gradient of {name} for filter {i} is {gi.tolist()} instead of {g[i].tolist()}", key)
            obj.zero_grad()
    rec.case(key)


# ------------------------------------------------------------ units
def run_grid(unit, rec):
    """All banks of short filters over an alphabet (the first taps are fixed by the unit)."""
    n, alpha, head = unit["length"], unit["alphabet"], unit["head"]
    for tail in itertools.product(alpha, repeat=4 * n - len(head)):
        taps = np.array(list(head) + list(tail), dtype=float)
        bank = list(taps.reshape(4, n))
        check_bank(rec, make("SoftOrthogonalWavelet", bank, F64), "SoftOrthogonalWavelet", bank, F64, ("grid", n, taps.tolist()))


def run_sparse(unit, rec):
    """All banks with few nonzero taps."""
    n, count, first = unit["length"], unit["count"], unit["first"]
    for pos in itertools.combinations(range(4 * n), count):
        if pos[0] != first:
            continue
        for vals in itertools.product((1.0, -2.0), repeat=count):
            taps = np.zeros(4 * n)
            taps[list(pos)] = vals
            bank = list(taps.reshape(4, n))
            key = ("sparse", n, pos, vals)
            check_bank(rec, make("SoftOrthogonalWavelet", bank, F64), "SoftOrthogonalWavelet", bank, F64, key, grads=count <= 2)


def run_wavelet(unit, rec):
    w = unit["wavelet"]
    bank = [np.array(f) for f in ref.bank(w)]
    n = len(bank[0])
    try:
        for default, dtype, cls in itertools.product((F32, F64), (F32, F64), CLASSES):
            torch.set_default_dtype(default)
            obj = make(cls, bank, dtype)
            key = ("wavelet", w, str(default), str(dtype), cls)
            check_bank(rec, obj, cls, bank, dtype, key, grads=n <= 20 and default is F32)
            # valid banks have no loss
            names = ["alias_cancellation_loss", "perfect_reconstruction_loss"]
            if cls != "Plain":
                names.append("product_filter_loss")
            if pywt.Wavelet(w).orthogonal and cls == "SoftOrthogonalWavelet":
                names += ["rec_lo_orthogonality_loss", "filt_bank_orthogonality_loss", "wavelet_loss"]
            for name in names:
                out = getattr(obj, name)()
                got = float((out[0] if isinstance(out, tuple) else out).detach())
                if not 0 <= got <= (ZERO_TOL if w != "dmey" else 1e-3):
                    rec.fail(f"{name} of {w} is {got}", key)
        torch.set_default_dtype(F32)
        # every single-tap perturbation
        if n <= unit["limit"]:
            for i, j, d in itertools.product(range(4), range(n), (0.25, -1.0)):
                bad = [b.copy() for b in bank]
                bad[i][j] += d
                key = ("perturbed", w, i, j, d)
                obj = make("SoftOrthogonalWavelet", bad, F64)
                check_bank(rec, obj, "SoftOrthogonalWavelet", bad, F64, key)
                if float(obj.wavelet_loss().detach()) < 1e-3:
                    rec.fail(f"the wavelet loss of {w} with tap {j} of filter {i} changed by {d} is "
                             f"{float(obj.wavelet_loss().detach())}", key)
    finally:
        torch.set_default_dtype(F32)


def updates():
    """Ways to change the parameters of an object: (name, function(obj, bank, dtype) -> (obj, bank, dtype))."""
    def data(obj, bank, dtype):
        new = [b * 0.5 + 0.125 for b in bank]
        for p, b in zip((obj.dec_lo, obj.dec_hi, obj.rec_lo, obj.rec_hi), new):
            p.data = torch.tensor(b, dtype=dtype)
        return obj, new, dtype

    def inplace(obj, bank, dtype):
        new = [b.copy() for b in bank]
        new[2][0] += 1.0
        with torch.no_grad():
            obj.rec_lo[0] += 1.0
        return obj, new, dtype

    def sgd(obj, bank, dtype):
        opt = torch.optim.SGD(obj.parameters(), lr=0.125)
        for g in opt.param_groups:
            if len(g["params"]) != 4:
                raise AssertionError(f"{len(g['params'])} parameters")
        opt.zero_grad()
        sum((k + 1.0) * p.sum() for k, p in enumerate(obj.filter_bank)).backward()
        opt.step()
        return obj, [b - 0.125 * (k + 1.0) for k, b in enumerate(bank)], dtype

    def replace(obj, bank, dtype):
        new = [b.copy() for b in bank]
        new[1] = new[1][::-1].copy() + 0.5
        obj.dec_hi = torch.nn.Parameter(torch.tensor(new[1], dtype=dtype))
        return obj, new, dtype

    def longer(obj, bank, dtype):
        new = [np.concatenate([b, [0.25, 1.0]]) for b in bank]
        for name, b in zip(("dec_lo", "dec_hi", "rec_lo", "rec_hi"), new):
            setattr(obj, name, torch.nn.Parameter(torch.tensor(b, dtype=dtype)))
        return obj, new, dtype

    def state(obj, bank, dtype):
        new = [b - 0.75 for b in bank]
        other = type(obj)(*(torch.tensor(b, dtype=dtype) for b in new))
        obj.load_state_dict(other.state_dict())
        return obj, new, dtype

    def to_double(obj, bank, dtype):
        return obj.double(), bank, F64

    def to_single(obj, bank, dtype):
        bank = [b.astype(np.float32).astype(float) for b in bank]
        return obj.float(), bank, F32

    def copied(obj, bank, dtype):
        new = copy.deepcopy(obj)
        with torch.no_grad():
            obj.dec_lo.zero_()
        return new, bank, dtype

    def stored(obj, bank, dtype):
        buf = io.BytesIO()
        torch.save(obj, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False), bank, dtype

    def used(obj, bank, dtype):
        ptwt.wavedec(torch.ones(16, dtype=dtype), obj, level=1)
        obj.wavelet_loss().backward()
        return obj, bank, dtype

    return [data, inplace, sgd, replace, longer, state, to_double, to_single, copied, stored, used]


def run_history(unit, rec):
    cls, depth = unit["cls"], unit["depth"]
    ups = {f.__name__: f for f in updates()}
    for rest in itertools.product(ups, repeat=depth - 1):
        names = (unit["first"],) + rest
        for dtype in (F64, F32):
            key = ("history", cls, str(dtype)) + names
            bank = [np.array([0.5, 0.25]), np.array([-1.0, 0.5]), np.array([2.0, 0.75]), np.array([0.125, 1.0])]
            if dtype is F32:
                bank = [b.astype(np.float32).astype(float) for b in bank]
            obj, dt = make(cls, bank, dtype), dtype
            check_bank(rec, obj, cls, bank, dt, key + ("start",))
            for n in names:
                obj, bank, dt = ups[n](obj, bank, dt)
                check_bank(rec, obj, cls, bank, dt, key + (n,), grads=True, what=f"after {n}: ")


def units(tier, seed):
    quick = tier == "quick"
    res = [dict(kind="grid", length=1, alphabet=[-1.0, 0.0, 1.0, 2.0], head=[])]
    for head in itertools.product([-1.0, 0.0, 1.0], repeat=2):
        res.append(dict(kind="grid", length=2, alphabet=[-1.0, 0.0, 1.0], head=list(head)))
    if not quick:
        for head in itertools.product([-1.0, 1.0], repeat=5):
            res.append(dict(kind="grid", length=3, alphabet=[0.0, 1.0], head=[abs(h) * (h > 0) for h in head]))
            res.append(dict(kind="grid", length=4, alphabet=[-1.0, 1.0], head=list(head)))
    for n, top in ((3, 2), (4, 3), (5, 2), (6, 2), (8, 1), (12, 1)) if quick else ((3, 4), (4, 4), (5, 3), (6, 3), (8, 2), (12, 2)):
        for count in range(1, top + 1):
            for first in range(4 * n - count + 1):
                res.append(dict(kind="sparse", length=n, count=count, first=first))
    for w in ref.DISCRETE:
        res.append(dict(kind="wavelet", wavelet=w, limit=8 if quick else 40))
    for cls in ("ProductFilter", "SoftOrthogonalWavelet"):
        for f in updates():
            res.append(dict(kind="history", cls=cls, first=f.__name__, depth=2 if quick else 3))
    return res


def cost(unit):
    if unit["kind"] == "grid":
        return 50
    if unit["kind"] == "wavelet":
        return ref.flen(unit["wavelet"])
    return 5


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
