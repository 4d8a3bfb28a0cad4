"""C25: torch's function transforms see the same linear map as plain calls."""
import itertools
import warnings

import pywt
import torch
import torch.utils.checkpoint
from torch.autograd import forward_ad
from torch.fx.experimental.proxy_tensor import make_fx

import ptwt
from ptwt.wavelets_learnable import ProductFilter

from .. import ref
from ..core import Violation
from ..ops import OPS
from ..util import F32, F64, dense, leaves, same, tmap

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of function transforms (vmap over every dimension, nested, forward and reverse "
             "mode and their compositions, graph capture, checkpointing) of every convolution-based transform and inverse, "
             "against its matrix measured by plain calls")
RULE = (
    "one case per (transform, direction, wavelet, mode, level, shape, axes, dtype, function transform and its parameters); "
    "Jacobians are compared entry by entry with the matrix measured by plain calls on all unit vectors, so they decide all "
    "tangents and cotangents; non-trivial: values compared"
)
ASSUMPTIONS = ["plain calls are decided by C01 to C07 and C12", "torch's function transforms of elementary operations"]
FRESH = True

NAMES = [n for n, op in OPS.items() if not n.startswith("matrix") and not getattr(op, "boundary", False)]


def flat(res):
    outs = [t for _, t in leaves(res)]
    outs = [torch.view_as_real(t) if t.is_complex() else t for t in outs]
    return torch.cat([t.reshape(-1) for t in outs])


class Forward:
    """x of a shape -> flat vector of all coefficients."""

    def __init__(self, op, w, mode, level, shape, axes, dt):
        self.shape = tuple(shape)
        self.dt = dt
        self.fn = lambda x: flat(op.fwd(x, w, mode, level, axes))


class Inverse:
    """Flat vector of coefficients -> flat signal."""

    def __init__(self, op, w, mode, level, shape, axes, dt):
        c = op.fwd(dense(shape, dt, 1), w, mode, level, axes)
        parts = []
        tmap(lambda t: parts.append((tuple(t.shape), t.numel())), c)
        total = sum(n for _, n in parts)
        self.shape, self.dt = (total,), dt

        def fn(v):
            it = iter([p.reshape(s) for p, (s, _) in zip(torch.split(v, [n for _, n in parts]), parts)])
            return op.inv(tmap(lambda _: next(it), c), w, mode, axes).reshape(-1)

        self.fn = fn


def plain_matrix(f):
    n = 1
    for s in f.shape:
        n *= s
    eye = torch.eye(n, dtype=f.dt)
    return torch.stack([f.fn(e.reshape(f.shape)) for e in eye], 1)


def guarded(rec, what, key, fn):
    """Values of a function transform; an exception is a violation."""
    rec.case(key + (what,))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    except Violation:
        raise
    except Exception as exc:  # noqa: B902
        rec.fail(f"{what} raised {exc!r}"[:500], key)


def check_function(rec, f, key, small, traceable=True):
    """All function transforms of one linear function."""
    fn, shape, dt = f.fn, f.shape, f.dt
    xs = [dense(shape, dt, k) for k in range(4)]
    plain = [fn(x) for x in xs]

    def eq(got, want, what):
        same(rec, got, want, what, key)

    # ---- batching
    for d in range(len(shape) + 1):
        for dim in (d, d - len(shape) - 1):
            got = guarded(rec, f"vmap in_dims={dim}", key, lambda: torch.func.vmap(fn, in_dims=dim)(torch.stack(xs, d)))
            eq(got, torch.stack(plain), f"vmap over dimension {dim}")
    got = guarded(rec, "vmap out_dims", key, lambda: torch.func.vmap(fn, out_dims=1)(torch.stack(xs)))
    eq(got, torch.stack(plain, 1), "vmap with out_dims=1")
    got = guarded(rec, "vmap chunks", key, lambda: torch.func.vmap(fn, chunk_size=3)(torch.stack(xs)))
    eq(got, torch.stack(plain), "vmap in chunks")
    got = guarded(rec, "vmap nested", key,
                  lambda: torch.func.vmap(torch.func.vmap(fn))(torch.stack(xs).reshape((2, 2) + shape)))
    eq(got, torch.stack(plain).reshape(2, 2, -1), "nested vmap")
    got = guarded(rec, "vmap one", key, lambda: torch.func.vmap(fn)(xs[0][None]))
    eq(got, plain[0][None], "vmap of one item")
    # ---- forward mode
    for x, t, y, u in ((xs[0], xs[1], plain[0], plain[1]), (torch.zeros_like(xs[0]), xs[2], torch.zeros_like(plain[0]), plain[2]),
                       (xs[3], torch.zeros_like(xs[0]), plain[3], torch.zeros_like(plain[0]))):
        got = guarded(rec, "jvp", key, lambda: torch.func.jvp(fn, (x,), (t,)))
        eq(list(got), [y, u], "jvp")

        def dual():
            with forward_ad.dual_level():
                return list(forward_ad.unpack_dual(fn(forward_ad.make_dual(x, t))))

        got = guarded(rec, "dual numbers", key, dual)
        eq(got, [y, u], "dual numbers")
        with torch.no_grad():
            got = guarded(rec, "dual numbers without grad", key, dual)
        eq(got, [y, u], "dual numbers without grad")
    got = guarded(rec, "vmap of jvp", key, lambda: torch.func.vmap(lambda t: torch.func.jvp(fn, (xs[0],), (t,))[1])(torch.stack(xs)))
    eq(got, torch.stack(plain), "batch of tangents")
    # ---- reverse mode
    cots = [dense(tuple(plain[0].shape), dt, 5 + k) for k in range(3)]
    got, pull = guarded(rec, "vjp", key, lambda: torch.func.vjp(fn, xs[0]))
    eq(got, plain[0], "value of vjp")
    back = [pull(c)[0] for c in cots]
    got = guarded(rec, "vmap of vjp", key, lambda: torch.func.vmap(lambda c: pull(c)[0])(torch.stack(cots)))
    eq(got, torch.stack(back), "batch of cotangents")
    mat = plain_matrix(f) if small else None
    if small:
        eq(torch.stack(back).reshape(3, -1), torch.stack(cots) @ mat, "vjp")
        want = mat.reshape((-1,) + shape)
        for what, jac in (("jacrev", torch.func.jacrev), ("jacfwd", torch.func.jacfwd)):
            got = guarded(rec, what, key, lambda: jac(fn)(xs[0]))
            same(rec, got, want, what, key)
    for c, b in zip(cots, back):
        got = guarded(rec, "grad", key, lambda: torch.func.grad(lambda x: (fn(x) * c).sum())(xs[1]))
        eq(got, b, "grad of a linear loss")

    def loss(x):
        y = fn(x)
        return (y * y * y).sum() / 3

    # the gradient of the loss is the transpose applied to the squared outputs
    want = [pull(p * p)[0] for p in plain]
    got = guarded(rec, "per-sample gradients", key, lambda: torch.func.vmap(torch.func.grad(loss))(torch.stack(xs)))
    eq(got, torch.stack(want), "per-sample gradients")
    # ---- second order: direction t of the Hessian is the transpose of (2 y u)
    hess = pull(2 * plain[0] * plain[1])[0]
    got = guarded(rec, "jvp of grad", key, lambda: torch.func.jvp(torch.func.grad(loss), (xs[0],), (xs[1],))[1])
    eq(got, hess, "forward over reverse")
    got = guarded(rec, "grad of jvp", key, lambda: torch.func.grad(lambda x: torch.func.jvp(loss, (x,), (xs[1],))[1])(xs[0]))
    eq(got, hess, "reverse over forward")
    got = guarded(rec, "grad of grad", key,
                  lambda: torch.func.grad(lambda x: (torch.func.grad(loss)(x) * xs[1]).sum())(xs[0]))
    eq(got, hess, "reverse over reverse")

    def twice():
        x = xs[0].clone().requires_grad_()
        g, = torch.autograd.grad(loss(x), x, create_graph=True)
        h, = torch.autograd.grad((g * xs[1]).sum(), x, create_graph=True)
        third, = torch.autograd.grad((h * xs[2]).sum(), x)
        return [g.detach(), h.detach(), third]

    got = guarded(rec, "three times backward", key, twice)
    eq(got, [want[0], hess, pull(2 * plain[1] * plain[2])[0]], "repeated differentiation")
    # ---- recomputation and stored tensors
    for reentrant in (True, False):
        def check():
            x = xs[0].clone().requires_grad_()
            torch.utils.checkpoint.checkpoint(loss, x, use_reentrant=reentrant).backward()
            return x.grad

        eq(guarded(rec, f"checkpoint {reentrant}", key, check), want[0], "checkpointing")

    def hooks():
        x = xs[0].clone().requires_grad_()
        with torch.autograd.graph.saved_tensors_hooks(lambda t: t.clone(), lambda t: t.clone()):
            loss(x).backward()
        return x.grad

    eq(guarded(rec, "saved tensors", key, hooks), want[0], "hooks for saved tensors")
    # ---- graph capture
    if traceable:
        graph = guarded(rec, "graph", key, lambda: make_fx(fn)(xs[0]))
        for x, y in zip(xs[::-1], plain[::-1]):
            eq(guarded(rec, "graph call", key, lambda: graph(x)), y, "captured graph with other data")
        graph = guarded(rec, "graph of vmap", key, lambda: make_fx(torch.func.vmap(fn))(torch.stack(xs)))
        eq(graph(torch.stack(xs[::-1])), torch.stack(plain[::-1]), "captured graph of a batch")


# ------------------------------------------------------------------- units
def small_shapes(op, tier):
    if op.name == "swt":
        return [(8,), (12,), (2, 4)]
    if op.ndim == 1:
        return [(9,), (12,), (2, 5)]
    if op.ndim == 2:
        return [(5, 6), (8, 4)]
    return [(4, 3, 5)]


def big_shapes(op):
    if op.name == "swt":
        return [(3, 32)]
    if op.ndim == 1:
        return [(3, 37)]
    return [(2, 12, 13)] if op.ndim == 2 else [(2, 6, 8, 7)]


def run_data(unit, rec):
    op = OPS[unit["op"]]
    w, mode = unit["wavelet"], unit["mode"]
    f = ref.flen(w)
    nd = op.ndim
    for level in (1, 2) if op.has_level else (None,):
        for shape, small in [(s, True) for s in small_shapes(op, rec.tier)] + [(s, False) for s in big_shapes(op)]:
            axes_list = [None]
            if op.axes_ok and len(shape) >= nd and not small:
                axes_list.append(tuple(range(nd))[::-1])
            if op.name == "swt" and shape[-1] % 2 ** level:
                continue
            for axes in axes_list:
                ax = axes if axes is not None else tuple(range(-nd, 0))
                if op.name == "swt" and any(shape[a] % 2 ** level for a in ax):
                    continue
                if op.refusable([shape[a] for a in ax], f, mode, level or 1):
                    continue
                for dt in (F64, F32) if not small and axes is None else (F64,):
                    key = (op.name, w, mode, level, shape, axes, str(dt))
                    fwd = Forward(op, w, mode, level, shape, axes, dt)
                    check_function(rec, fwd, key + ("forward",), small, traceable=not op.name.startswith("cwt"))
                    if op.has_inverse:
                        check_function(rec, Inverse(op, w, mode, level, shape, axes, dt), key + ("inverse",), small and nd < 3)


def run_filters(unit, rec):
    """Batches, tangents and gradients of the filters."""
    op = OPS[unit["op"]]
    nd = op.ndim
    mode = unit["mode"]
    base = [torch.tensor(v, dtype=F64) for v in pywt.Wavelet("db2").filter_bank]
    banks = [[b * (1 + 0.3 * k) + 0.1 * k * dense(tuple(b.shape), F64, i) for i, b in enumerate(base)] for k in range(3)]
    shape = {1: (2, 12), 2: (1, 9, 8), 3: (1, 6, 5, 6)}[nd]
    if op.name == "swt":
        shape = (2, 16)
    x = dense(shape, F64, 1)
    coeffs = op.fwd(x, "db2", mode, 1)
    for direction in ("forward", "inverse"):
        def fn(*bank, x=x, c=coeffs):
            w = ptwt.WaveletTensorTuple(*bank)
            return flat(op.fwd(x, w, mode, 1)) if direction == "forward" else op.inv(c, w, mode).reshape(-1)

        key = (op.name, mode, direction, "filters")
        plain = [fn(*b) for b in banks]
        stacked = [torch.stack(v) for v in zip(*banks)]
        got = guarded(rec, "vmap over filters", key, lambda: torch.func.vmap(fn)(*stacked))
        same(rec, got, torch.stack(plain), "batch of filter banks", key)
        got = guarded(rec, "vmap over one filter", key,
                      lambda: torch.func.vmap(fn, in_dims=(0, None, None, None))(stacked[0], *banks[0][1:]))
        want = torch.stack([fn(b[0], *banks[0][1:]) for b in banks])
        same(rec, got, want, "batch of one filter", key)
        # the result is a polynomial of degree nd in the filters: its
        # derivative in a direction is exact from nd + 1 values on a line
        def along(t, b=banks[0], d=banks[1]):
            return fn(*[v + t * (u - v) for v, u in zip(b, d)])

        pts = list(range(nd + 1))
        vander = torch.tensor([[float(t) ** k for k in pts] for t in pts], dtype=F64)
        vals = torch.stack([along(float(t)) for t in pts])
        want = torch.linalg.solve(vander, vals)[1]
        tangent = tuple(u - v for v, u in zip(banks[0], banks[1]))
        got = guarded(rec, "jvp of filters", key, lambda: torch.func.jvp(fn, tuple(banks[0]), tangent)[1])
        same(rec, got, want, "tangent of the filters", key, rtol=1e-9)
        c = dense(tuple(plain[0].shape), F64, 6)
        got = guarded(rec, "grad of filters", key,
                      lambda: torch.func.grad(lambda b: (fn(*b) * c).sum())(tuple(banks[0])))
        dot = sum((g * t).sum() for g, t in zip(got, tangent))
        same(rec, dot, (want * c).sum(), "gradient of the filters", key, rtol=1e-9)
        # per-sample gradients of one wavelet
        batch = torch.stack([dense(shape, F64, k) for k in range(3)])
        if direction == "forward":
            def sample_loss(b, y):
                return (flat(op.fwd(y, ptwt.WaveletTensorTuple(*b), mode, 1)) ** 2).sum()

            got = guarded(rec, "per-sample gradients of filters", key,
                          lambda: torch.func.vmap(torch.func.grad(sample_loss), in_dims=(None, 0))(tuple(banks[0]), batch))
            want = [torch.func.grad(sample_loss)(tuple(banks[0]), y) for y in batch]
            same(rec, list(got), [torch.stack(v) for v in zip(*want)], "per-sample gradients of the filters", key)
            # parameters of a module, functional
            module = Net(op, mode, ProductFilter(*[b.clone() for b in banks[0]]))
            for b in banks:
                params = {f"wavelet.{n}": v for n, v in zip(("dec_lo", "dec_hi", "rec_lo", "rec_hi"), b)}
                got = guarded(rec, "functional call", key, lambda: torch.func.functional_call(module, params, (x,)))
                same(rec, got, fn(*b), "functional_call", key)
            same(rec, module(x).detach(), plain[0], "module after functional calls", key)
            models = [Net(op, mode, ProductFilter(*[v.clone() for v in b])) for b in banks]
            params, buffers = torch.func.stack_module_state(models)
            got = guarded(rec, "ensemble", key, lambda: torch.func.vmap(
                lambda p, q: torch.func.functional_call(models[0], (p, q), (x,)))(params, buffers))
            same(rec, got.detach(), torch.stack(plain), "ensemble of wavelets", key)


class Net(torch.nn.Module):
    def __init__(self, op, mode, wavelet):
        super().__init__()
        self.op, self.mode, self.wavelet = op, mode, wavelet

    def forward(self, x):
        return flat(self.op.fwd(x, self.wavelet, self.mode, 1))


def units(tier, seed):
    res = []
    for n in NAMES:
        op = OPS[n]
        for mode in op.modes:
            if n.startswith("cwt"):
                res.append(dict(kind="data", op=n, wavelet="haar", mode=mode))
                continue
            ws = ("haar", "db2", "bior2.2") if tier == "quick" else ("haar", "db2", "bior2.2", "db4", "rbio3.1", "sym5")
            if op.ndim == 3 and tier == "quick":
                ws = ws[:2]
            res += [dict(kind="data", op=n, wavelet=w, mode=mode) for w in ws]
            res.append(dict(kind="filters", op=n, mode=mode))
    return res


def cost(unit):
    return 3 ** OPS[unit["op"]].ndim * (1 if unit["kind"] == "filters" else 4)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = itertools
