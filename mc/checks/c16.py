"""C16: gradients are those of the linear transform."""
import itertools

import numpy as np
import torch

import ptwt
from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from .. import ref
from ..ops import OPS
from ..util import F32, F64, close, dense, leaves, tmap, to_np
from .c13 import Custom

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration: vector-Jacobian products of all basis directions against the measured matrix"
RULE = (
    "one case per (entry point, wavelet, mode, shape, level, layout, history, subset of outputs "
    "or inputs); in each the vector-Jacobian products of ALL standard directions are compared "
    "with the matrix that the transform applies to all basis signals, or, for filters and "
    "parameters, with the derivative of the polynomial (or smooth) function that the calls "
    "evaluate; a case is nontrivial when the matrix has a nonzero entry"
)
ASSUMPTIONS = ["forward values are right (decided by the other checks)",
               "single precision gradients are compared within rounding"]

CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt", "packet1", "packet2", "packet2s"]
MATRIX = ["matrix1", "matrix1gs", "matrix2", "matrix2ns", "matrix2nsgs", "matrix3"]
PACKB = ["packet1b", "packet2b", "packet2bs"]
CWT = ["cwt", "cwtreal", "cwtdisc"]


def flat(op, res, batch):
    """Leaves as one (batch, M) tensor and the sizes of the leaves."""
    ts = []
    for _, t in leaves(res):
        if op.name.startswith("cwt"):
            t = torch.movedim(t, 1, 0) if t.dim() == 3 else t.unsqueeze(0)
        if t.is_complex():
            t = torch.view_as_real(t.resolve_conj())
        ts.append(t.reshape(batch, -1))
    return torch.cat(ts, 1), [t.shape[1] for t in ts]


def configs(name, tier):
    """(wavelet, mode, sides, level)"""
    op = OPS[name]
    quick = tier == "quick"
    res = []
    if name in CWT:
        return [(None, None, (n,), None) for n in ((12, 15) if quick else (9, 12, 15, 16, 31, 64))]
    if name == "swt":
        for w in ("haar", "db2", "bior2.2"):
            for n, lev in ((8, 1), (8, 3), (12, 2), (4, 2)):
                res.append((w, None, (n,), lev))
        return res
    waves = {1: ["haar", "db2", "bior2.2", "db4"], 2: ["haar", "db2"], 3: ["haar", "db2"]}[op.ndim]
    if name in CONV and op.ndim > 1:
        waves = waves + ["bior1.3"]
    if not quick:
        waves = waves + ["sym4", "coif1"]
    if name in MATRIX + PACKB:
        waves = [w for w in waves if w not in ("bior2.2", "bior1.3")]
    sides = {1: [(8,), (11,), (16,)], 2: [(6, 7), (8, 8)], 3: [(4, 5, 4)]}[op.ndim]
    if name in MATRIX + PACKB:
        sides = {1: [(8,), (11,), (16,)], 2: [(8, 8), (9, 8)], 3: [(4, 5, 4)]}[op.ndim]
        if name in ("matrix2ns", "matrix2nsgs", "packet2b"):
            sides = [(4, 6), (5, 6)] if name != "matrix2nsgs" else [(4, 4)]
            waves = ["haar"] + (["db2"] if name != "matrix2nsgs" else [])
    for w in waves:
        f = ref.flen(w)
        for s in sides:
            for mode in op.modes:
                top = {1: 2, 2: 2, 3: 1}[op.ndim]
                for lev in range(1, top + 1):
                    if name in PACKB and (op.ndim == 2 and lev > 1 or min(s) / 2 ** (lev - 1) < f):
                        continue
                    if name in MATRIX and (min(s) < f or lev > 1 and op.ndim > 1 and w != "haar"):
                        continue
                    if op.refusable(s, f, mode, lev):
                        continue
                    res.append((w, mode, s, lev))
    return res


def measure_fwd(op, cfg, run=None, dtype=F64):
    w, mode, sides, lev = cfg
    n = int(np.prod(sides))
    eye = torch.eye(n, dtype=dtype).reshape(n, *sides)
    with torch.no_grad():
        res = (run or op.fwd)(eye, w, mode, lev)
        m, sizes = flat(op, res, n)
    return m.T.contiguous(), sizes, tmap(lambda t: torch.tensor(tuple(t.shape)), res)


def onehots(m, lo, hi, dtype=F64):
    v = torch.zeros((hi - lo, m), dtype=dtype)
    v[torch.arange(hi - lo), torch.arange(lo, hi)] = 1
    return v


def grads_ok(rec, got, want, what, key, dtype=F64):
    if got is None:
        rec.fail(f"{what}: no gradient reaches the data", key)
    scale = float(want.abs().max()) if want.numel() else 0.0
    close(rec, got.detach().reshape(want.shape), want, (1e-11 if dtype is F64 else 2e-5) * max(scale, 1e-3), what, key)


def run_fwd(unit, rec):
    op = OPS[unit["op"]]
    for cfg in configs(unit["op"], rec.tier)[unit["part"]::unit["parts"]]:
        w, mode, sides, lev = cfg
        mat, sizes, _ = measure_fwd(op, cfg)
        m, n = mat.shape
        key = ("fwd", op.name, w, mode, sides, lev)

        def vjp(x, lo, hi, unused=()):
            out, _ = flat(op, op.fwd(x, w, mode, lev), x.shape[0])
            return torch.autograd.grad(out, x, onehots(m, lo, hi))[0]

        # all directions, all outputs
        x = dense((m, *sides), F64, 2).requires_grad_()
        grads_ok(rec, vjp(x, 0, m), mat, "gradients of all outputs", key)
        rec.case(key, bool(mat.abs().max() > 0))
        # the gradient of every single output tensor, and of all but one
        x = dense((2, *sides), F64, 3).requires_grad_()
        outs = [t for _, t in leaves(op.fwd(x, w, mode, lev))]
        offs = np.cumsum([0] + sizes)
        ms = [mat[offs[i]:offs[i + 1]] for i in range(len(sizes))]
        for i in range(len(outs)):
            for subset in ((i,), tuple(j for j in range(len(outs)) if j != i)) if len(outs) > 2 else ((i,),):
                cot = [dense(tuple(outs[j].shape), F64, 5 + j).to(outs[j].dtype) for j in subset]
                g = torch.autograd.grad([outs[j] for j in subset], x, cot, retain_graph=True, allow_unused=True)[0]
                want = 0
                for j, c in zip(subset, cot):
                    cf, _ = flat(op, [c], 2)
                    want = want + cf @ ms[j]
                if g is None:
                    g = torch.zeros_like(x)
                grads_ok(rec, g, want.reshape(2, -1), f"gradient of the outputs {subset}", key + (subset,))
                rec.case(key + (subset,))
        # derivative of the gradient with respect to the direction
        if op.name not in CWT:
            cot = [dense(tuple(t.shape), F64, 9).requires_grad_() for t in outs]
            g = torch.autograd.grad(outs, x, cot, create_graph=True)[0]
            u = dense(tuple(x.shape), F64, 10)
            if g.requires_grad:
                gg = torch.autograd.grad(g, cot, u, allow_unused=True)
                gg = [torch.zeros_like(c) if a is None else a for a, c in zip(gg, cot)]
                got, _ = flat(op, gg, 2)
                grads_ok(rec, got, u.reshape(2, -1) @ mat.T, "derivative of the gradient", key)
            else:
                rec.fail("the gradient is not differentiable", key)
            rec.case(key + ("second",))
        # layouts
        for layout in layouts(op, rec.tier):
            run_layout(rec, op, cfg, mat, layout, key)
        # single precision
        if mode in ("symmetric", "boundary", None):
            x = dense((2, *sides), F32, 3).requires_grad_()
            out = [t for _, t in leaves(op.fwd(x, w, mode, lev))]
            cot = [dense(tuple(t.shape), t.dtype if not t.is_complex() else F64, 4).to(t.dtype) for t in out]
            g = torch.autograd.grad(out, x, cot)[0]
            if g.dtype != F32:
                rec.fail(f"gradient has dtype {g.dtype}", key)
            cf, _ = flat(op, cot, 2)
            mat32 = mat
            if op.name in MATRIX + PACKB:
                # boundary filters of the two precisions may differ in sign
                mat32 = measure_fwd(op, cfg, dtype=F32)[0].to(F64)
            grads_ok(rec, g.to(F64), cf.to(F64) @ mat32, "single precision gradient", key, F32)
            rec.case(key + ("f32",))


def layouts(op, tier):
    res = ["none", "two"]
    if op.name in CWT:
        return ["none"]
    if op.axes_ok:
        res += ["axes"] + (["axes2"] if op.ndim > 1 else [])
    return res + ["strided"]


def run_layout(rec, op, cfg, mat, layout, key):
    w, mode, sides, lev = cfg
    m, n = mat.shape
    nd = op.ndim
    batch = {"none": (), "two": (2, 3), "axes": (3,), "axes2": (2,), "strided": (2,)}[layout]
    b = int(np.prod(batch)) if batch else 1
    canon = dense((*batch, *sides), F64, 6)
    axes, move = None, None
    if layout == "axes":
        axes = tuple(range(nd))
        move = axes
    elif layout == "axes2":
        # transformed axes in reverse order
        axes = tuple(reversed(range(1, nd + 1)))
        move = axes
    data = canon
    if move is not None:
        data = torch.movedim(canon, tuple(range(-nd, 0)), move)
    if layout == "strided":
        buf = torch.zeros(tuple(2 * s for s in data.shape), dtype=F64)
        view = buf[tuple(slice(None, None, 2) for _ in data.shape)]
        view.copy_(data)
        data = view
    x = data.detach()
    if layout != "strided":
        x = x.clone(memory_format=torch.contiguous_format)
    x.requires_grad_()
    res = op.fwd(x, w, mode, lev, axes) if axes is not None else op.fwd(x, w, mode, lev)
    outs = [t for _, t in leaves(res)]

    def canon_of(t):
        return t if move is None else torch.movedim(t, move, tuple(range(-nd, 0)))

    cot = [dense(tuple(t.shape), F64, 7 + i).to(t.dtype) for i, t in enumerate(outs)]
    g = torch.autograd.grad(outs, x, cot)[0]
    cf, _ = flat(op, [canon_of(c) for c in cot], b)
    grads_ok(rec, canon_of(g).reshape(b, -1), cf @ mat, f"gradient with layout {layout}", key + (layout,))
    rec.case(key + (layout,))


# ------------------------------------------------------------------ inverses
def run_inv(unit, rec):
    op = OPS[unit["op"]]
    for cfg in configs(unit["op"], rec.tier)[unit["part"]::unit["parts"]]:
        w, mode, sides, lev = cfg
        if mode not in ("symmetric", "boundary", "zero", None) and not op.name.startswith("packet"):
            continue
        with torch.no_grad():
            coeffs = op.fwd(dense((1, *sides), F64), w, mode, lev)
        names = [p for p, _ in leaves(coeffs)]
        shapes = [tuple(t.shape[1:]) for _, t in leaves(coeffs)]
        ks = [int(np.prod(s)) for s in shapes]
        k = sum(ks)
        offs = np.cumsum([0] + ks)
        key = ("inv", op.name, w, mode, sides, lev)

        def struct(ts):
            it = iter(ts)
            return tmap(lambda t: next(it), coeffs_sorted(coeffs))

        def split(mat, batch):
            return [mat[:, offs[i]:offs[i + 1]].reshape(*batch, *shapes[i]) for i in range(len(ks))]

        with torch.no_grad():
            out = op.inv(struct(split(torch.eye(k, dtype=F64), (k,))), w, mode)
        r = out.reshape(k, -1).T.contiguous()  # (N, K)
        nout = r.shape[0]
        ts = [t.clone().requires_grad_() for t in split(dense((nout, k), F64, 3), (nout,))]
        out = op.inv(struct(ts), w, mode)
        g = torch.autograd.grad(out, ts, torch.eye(nout, dtype=F64).reshape(out.shape), allow_unused=True)
        for i, (gi, nm) in enumerate(zip(g, names)):
            want = r[:, offs[i]:offs[i + 1]]
            if gi is None:
                gi = torch.zeros((nout, ks[i]), dtype=F64)
            grads_ok(rec, gi, want, f"gradient of the inverse in coefficient {nm}", key)
        rec.case(key)
        # only one of the coefficient tensors requires a gradient
        used = [i for i in range(len(ks)) if float(r[:, offs[i]:offs[i + 1]].abs().max()) > 0]
        for i in used:
            ts = [t.clone() for t in split(dense((2, k), F64, 4), (2,))]
            ts[i].requires_grad_()
            out = op.inv(struct(ts), w, mode)
            v = dense(tuple(out.shape), F64, 5)
            g = torch.autograd.grad(out, ts[i], v)[0]
            grads_ok(rec, g.reshape(2, -1), v.reshape(2, -1) @ r[:, offs[i]:offs[i + 1]],
                     f"gradient in the only coefficient {names[i]} that requires one", key)
            rec.case(key + (i,))
        # layouts
        for layout in ("none", "two") + (("axes",) if op.axes_ok else ()):
            batch = {"none": (), "two": (2, 2), "axes": (2,)}[layout]
            b = int(np.prod(batch)) if batch else 1
            nd = op.ndim
            ts = split(dense((b, k), F64, 6), batch)
            axes = None
            if layout == "axes":
                axes = tuple(range(nd))
                ts = [torch.movedim(t, tuple(range(-nd, 0)), axes) for t in ts]
            ts = [t.clone(memory_format=torch.contiguous_format).requires_grad_() for t in ts]
            out = op.inv(struct(ts), w, mode, axes) if axes is not None else op.inv(struct(ts), w, mode)
            v = dense(tuple(out.shape), F64, 8)
            g = torch.autograd.grad(out, [ts[i] for i in used], v)
            cv = v if axes is None else torch.movedim(v, axes, tuple(range(-nd, 0)))
            for gi, i in zip(g, used):
                cg = gi if axes is None else torch.movedim(gi, axes, tuple(range(-nd, 0)))
                grads_ok(rec, cg.reshape(b, -1), cv.reshape(b, -1) @ r[:, offs[i]:offs[i + 1]],
                         f"gradient of the inverse with layout {layout}", key + (layout,))
            rec.case(key + (layout,))


def coeffs_sorted(coeffs):
    """Dictionaries in the order in which leaves() walks them."""
    if isinstance(coeffs, dict):
        return {k: coeffs_sorted(coeffs[k]) for k in sorted(coeffs)}
    if isinstance(coeffs, tuple) and hasattr(coeffs, "_fields"):
        return type(coeffs)(*(coeffs_sorted(v) for v in coeffs))
    if isinstance(coeffs, (list, tuple)):
        return type(coeffs)(coeffs_sorted(v) for v in coeffs)
    return coeffs


# ------------------------------------------------------------ reused objects
def run_reuse(unit, rec):
    """Histories of up to two earlier calls on one object."""
    op = OPS[unit["op"]]
    nd = op.ndim
    gs = op.name == "matrix2nsgs"
    w = "haar" if op.name in ("matrix2ns", "matrix2nsgs") else "db2"
    small = {1: (8,), 2: (4, 4), 3: (4, 4, 4)}[nd]
    big = {1: (11,), 2: (6, 4), 3: (4, 6, 4)}[nd]
    inputs = {"A": (small, F64), "B": (big, F64), "A32": (small, F32)}
    lev = 1
    if unit["what"] == "matrix":
        for direction in ("fwd", "inv"):
            data, mats = {}, {}
            for lab, (shape, dt) in inputs.items():
                x = dense((2, *shape), dt, 3)
                if direction == "fwd":
                    data[lab] = [x]
                else:
                    data[lab] = [t.detach().clone() for _, t in leaves(op.fwd(x, w, "zero", lev))]
                    proto = op.fwd(x, w, "zero", lev)
                mats[lab] = None

            def build(lab, ts):
                if direction == "fwd":
                    return ts[0]
                x = dense((2, *inputs[lab][0]), inputs[lab][1])
                proto = coeffs_sorted(op.fwd(x, w, "zero", lev))
                it = iter(ts)
                return tmap(lambda t: next(it), proto)

            def vjp(obj, lab):
                ts = [t.clone().requires_grad_() for t in data[lab]]
                res = obj(build(lab, ts))
                outs = [t for _, t in leaves(res)]
                cot = [dense(tuple(t.shape), t.dtype, 5 + i) for i, t in enumerate(outs)]
                return ts, outs, cot

            def make():
                return op.make_dec(w, "zero", lev) if direction == "fwd" else op.make_rec(w)

            want = {}
            for lab in inputs:
                ts, outs, cot = vjp(make(), lab)
                want[lab] = [g.detach().clone() for g in torch.autograd.grad(outs, ts, cot)]
            for seq in itertools.product(inputs, repeat=3 if not gs else 2):
                key = ("reuse", op.name, direction, seq)
                obj = make()
                if seq[0] == seq[1]:
                    # used without gradients before
                    with torch.inference_mode() if seq[-1] == "A" else torch.no_grad():
                        obj(build(seq[0], data[seq[0]]))
                calls = [vjp(obj, lab) for lab in seq]
                # gradients in reverse order, then again for the first
                for lab, (ts, outs, cot) in reversed(list(zip(seq, calls))):
                    gs_ = torch.autograd.grad(outs, ts, cot, retain_graph=True)
                    for a, b in zip(gs_, want[lab]):
                        grads_ok(rec, a.to(F64), b.to(F64), "gradient of a reused object", key,
                                 F64 if lab != "A32" else F32)
                # no shared graph
                others = [t for ts, _, _ in calls[:-1] for t in ts]
                last = calls[-1]
                un = torch.autograd.grad(last[1], others, last[2], allow_unused=True, retain_graph=True)
                if any(g is not None for g in un):
                    rec.fail("a result depends on the data of an earlier call", key)
                torch.autograd.backward(last[1], last[2])
                if any(t.grad is not None for t in others):
                    rec.fail("backward of a result reaches an earlier call", key)
                torch.autograd.backward(calls[0][1], calls[0][2], retain_graph=True)
                rec.case(key)
    else:
        run_reuse_packet(op, rec)


def run_reuse_packet(op, rec):
    nd = op.ndim
    w = "haar" if op.ndim == 2 else "db2"
    mode = "boundary" if op.boundary else "reflect"
    sides = (12,) if nd == 1 else (4, 6)
    lev = 2 if nd == 1 else 1
    if op.boundary and nd == 1:
        sides = (16,)
    mat, sizes, shapes = measure_fwd(op, (w, mode, sides, lev))
    offs = np.cumsum([0] + sizes)
    paths = sorted(p for p in shapes)
    rows = {p: mat[offs[i]:offs[i + 1]] for i, p in enumerate(paths)}
    orders = [paths, paths[::-1], paths[1:2], paths[-1:]]
    for reuse in (False, True, "inference"):
        for order in orders:
            key = ("packet", op.name, reuse, tuple(order))
            wp = op.tree(dense((1, *sides), F64), w, mode, lev)
            if reuse == "inference":
                with torch.inference_mode():
                    wp.transform(dense((2, *sides), F64), lev)
                    for p in paths:
                        wp[p]
                    wp.reconstruct()
                wp.transform(dense((2, *sides), F64), lev)
            old = None
            if reuse is True:
                old = dense((3, *sides), F64, 4).requires_grad_()
                wp.transform(old, lev)
                first = wp[paths[-1]]
            x = dense((2, *sides), F64, 2).requires_grad_()
            wp.transform(x, lev)
            nodes = [wp[p] for p in order]
            for p, t in zip(order, nodes):
                v = dense(tuple(t.shape), F64, 6)
                g = torch.autograd.grad(t, x, v, retain_graph=True)[0]
                grads_ok(rec, g.reshape(2, -1), v.reshape(2, -1) @ rows[p], f"gradient of node {p!r}", key)
            if reuse is True:
                un = torch.autograd.grad(nodes[0].sum(), old, allow_unused=True, retain_graph=True)[0]
                if un is not None:
                    rec.fail("a node depends on the data of an earlier transform", key)
                v = dense(tuple(first.shape), F64, 6)
                g = torch.autograd.grad(first, old, v)[0]
                grads_ok(rec, g.reshape(3, -1), v.reshape(3, -1) @ rows[paths[-1]],
                         "gradient of a node read before the tree was reused", key)
            # leaves replaced by other tensors: the root depends on them only
            tips = [p for p in paths if len(p) == lev]
            for p in paths:
                wp[p]
            new = [dense(tuple(wp[p].shape), F64, 20 + i).requires_grad_() for i, p in enumerate(tips)]
            for p, t in zip(tips, new):
                wp[p] = t
            wp.reconstruct()
            root = wp[""]
            v = dense(tuple(root.shape), F64, 9)
            g = torch.autograd.grad(root, new, v, retain_graph=True)
            un = torch.autograd.grad(root, x, v, allow_unused=True)[0]
            if un is not None and float(un.abs().max()) != 0:
                rec.fail("the reconstructed root depends on the replaced data", key)
            # linear: <v, R c> must equal <g, c>
            total = sum(float((gi * t.detach()).sum()) for gi, t in zip(g, new))
            want = float((v * root.detach()).sum())
            if abs(total - want) > 1e-9 * max(1, abs(want)):
                rec.fail(f"gradient of the reconstruction: {total} instead of {want}", key)
            for i, t in enumerate(new):
                tree = op.tree(dense((2, *sides), F64), w, mode, lev)
                probe = [torch.zeros_like(q) for q in new]
                probe[i] = dense(tuple(t.shape), F64, 30)
                for p in paths:
                    tree[p]
                for p, q in zip(tips, probe):
                    tree[p] = q
                tree.reconstruct()
                a, b = float((g[i] * probe[i]).sum()), float((v * tree[""]).sum())
                if abs(a - b) > 1e-9 * max(1, abs(b)):
                    rec.fail(f"gradient of the reconstruction in leaf {tips[i]}: {a} instead of {b}", key)
            rec.case(key)


# ---------------------------------------------------------- learnable filters
SOURCES = {
    "tuple": lambda bank: ptwt.WaveletTensorTuple(*bank),
    "product": lambda bank: ProductFilter(*bank),
    "soft": lambda bank: SoftOrthogonalWavelet(*bank),
    "object": lambda bank: TensorObject(bank),
}


class TensorObject(Custom):
    def __init__(self, bank):
        self.name, self.bank = "tensors", list(bank)

    @property
    def filter_bank(self):
        return tuple(self.bank)


def poly_derivative(fn, degree):
    """Derivative at 0 of a polynomial of the given degree."""
    t = np.cos(np.pi * (np.arange(degree + 1) + 0.5) / (degree + 1)) if degree else np.array([0.0])
    y = np.array([fn(float(s)) for s in t])
    c = np.polynomial.polynomial.polyfit(t, y, degree)
    return c[1] if degree else 0.0


def filter_cases(name, tier):
    op = OPS[name]
    sides = {1: (9,), 2: (5, 6), 3: (4, 3, 4)}[op.ndim]
    if name == "swt":
        return [("db2", None, (8,), 1), ("db2", None, (8,), 2), ("haar", None, (8,), 3)]
    res = []
    for mode in op.modes:
        for w, lev in (("db2", 1), ("haar", 2)):
            if op.refusable(sides, ref.flen(w), mode, lev):
                continue
            if tier == "quick" and op.ndim > 1 and mode in ("constant", "periodic"):
                continue
            res.append((w, mode, sides, lev))
    return res


def run_filters(unit, rec):
    op = OPS[unit["op"]]
    for (w, mode, sides, lev), src, dt in itertools.product(
            filter_cases(unit["op"], rec.tier), SOURCES, (F64, F32)):
        if dt is F32 and src != "tuple":
            continue
        for direction in ("fwd", "inv"):
            key = ("filters", op.name, direction, w, mode, sides, lev, src, str(dt))
            x = dense((2, *sides), F64, 3)
            bank0 = [torch.tensor(f, dtype=F64) + 0.05 * dense((len(f),), F64, i) for i, f in enumerate(ref.bank(w))]
            with torch.no_grad():
                data = x if direction == "fwd" else tmap(lambda t: dense(tuple(t.shape), F64, 5), op.fwd(x, w, mode, lev))

            def value(bank, cots=None, src=src):
                wav = SOURCES[src](bank)
                res = op.fwd(data, wav, mode, lev) if direction == "fwd" else op.inv(data, wav, mode)
                outs = [t for _, t in leaves(res)]
                cots = cots or [dense(tuple(t.shape), F64, 7 + i) for i, t in enumerate(outs)]
                return sum((t * c).sum() for t, c in zip(outs, cots)), wav

            bank = [b.to(dt).clone().requires_grad_() for b in bank0]
            val, wav = value(bank)
            params = bank
            if src in ("product", "soft"):
                params = [wav.dec_lo, wav.dec_hi, wav.rec_lo, wav.rec_hi]
            if not val.requires_grad:
                rec.fail("no gradient reaches the filters", key)
            g = torch.autograd.grad(val, params, allow_unused=True)
            degree = lev * op.ndim
            for fi in range(4):
                mine = (fi < 2) == (direction == "fwd")
                if not mine and g[fi] is None:
                    continue
                if g[fi] is None:
                    rec.fail(f"no gradient reaches filter {fi}", key)
                if g[fi].dtype != dt:
                    rec.fail(f"gradient of filter {fi} has dtype {g[fi].dtype}", key)
                n = len(bank0[fi])
                for j in (range(n) if src == "tuple" else (n - 1,)):
                    def at(t, fi=fi, j=j):
                        b = [q.clone() for q in bank0]
                        b[fi][j] += t
                        with torch.no_grad():
                            return float(value(b, src="tuple")[0])

                    want = poly_derivative(at, degree)
                    if not mine and op.name.startswith("packet") and direction == "inv":
                        # the tree computes missing nodes with the analysis filters only
                        # to look at their shape
                        pass
                    got = float(g[fi][j])
                    tol = (1e-9 if dt is F64 else 5e-4) * max(1.0, abs(want), float(g[fi].abs().max()))
                    if not abs(got - want) <= tol:
                        rec.fail(f"gradient of filter {fi}[{j}] is {got} instead of {want}", key)
            rec.case(key)


# ------------------------------------------------------------------- cwt, losses
def run_cwtpar(unit, rec):
    for cls, bp, cp in ((_ComplexMorletWavelet, 1.5, 1.0), (_ComplexMorletWavelet, 0.5, 0.75),
                        (_ShannonWavelet, 1.5, 1.0), (_ShannonWavelet, 0.5, 1.25)):
        name = ("cmor" if cls is _ComplexMorletWavelet else "shan") + f"{bp}-{cp}"
        for scales in ([2.0], [1.0, 2.0, 5.0], [3.0, 3.0], [4.0, 1.5]):
            for shape in ((16,), (2, 13)):
                for dt in (F64, F32):
                    x = dense(shape, dt, 2)
                    key = ("cwt", name, tuple(scales), shape, str(dt))

                    def value(wav, x=x):
                        r = torch.view_as_real(ptwt.cwt(x, np.array(scales), wav)[0].resolve_conj())
                        return (r * dense(tuple(r.shape), r.dtype, 5)).sum()

                    wav = cls(name)
                    pars = [wav.bandwidth_par, wav.center_par]
                    xx = x.clone().requires_grad_()
                    g = torch.autograd.grad(value(wav, xx), pars + [xx], allow_unused=True)
                    if any(t is None for t in g):
                        rec.fail("no gradient reaches the parameters or the data", key)
                    wav2 = cls(name)
                    pars2 = [wav2.bandwidth_par, wav2.center_par]
                    for i in range(2):
                        base = float(pars2[i])
                        h = 1e-4
                        fd = 0.0
                        for k, c in ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60)):
                            for s in (1, -1):
                                with torch.no_grad():
                                    pars2[i].fill_(base + s * k * h)
                                    fd += s * c * float(value(wav2)) / h
                        with torch.no_grad():
                            pars2[i].fill_(base)
                        got = float(g[i])
                        tol = 1e-7 * max(1.0, abs(fd)) if dt is F64 else 1e-3 * max(1.0, abs(fd))
                        if not abs(got - fd) <= tol:
                            rec.fail(f"gradient of parameter {i}: {got} instead of {fd}", key)
                    # linear in the data
                    a = float((g[2] * x).sum())
                    b = float(value(cls(name)))
                    if not abs(a - b) <= (1e-8 if dt is F64 else 1e-3) * max(1.0, abs(b)):
                        rec.fail(f"gradient of the data: <g, x> is {a} instead of {b}", key)
                    # a second backward of a new call still works
                    val = value(wav)
                    val.backward()
                    for p, w_ in zip(pars, g):
                        if not torch.allclose(p.grad, w_, rtol=1e-6, atol=1e-9):
                            rec.fail("gradient of a second call", key)
                    rec.case(key)


def losses(cls):
    res = {"product": lambda p: p.product_filter_loss(), "alias": lambda p: p.alias_cancellation_loss()[0],
           "perfect": lambda p: p.perfect_reconstruction_loss()[0], "wavelet": lambda p: p.wavelet_loss()}
    if cls is SoftOrthogonalWavelet:
        res["rec_lo"] = lambda p: p.rec_lo_orthogonality_loss()
        res["bank"] = lambda p: p.filt_bank_orthogonality_loss()
    return res


def run_losses(unit, rec):
    for cls, n, kind, dt in itertools.product((ProductFilter, SoftOrthogonalWavelet), (2, 4, 6, 8), (0, 1, 2), (F64, F32)):
        bank = [dense((n,), F64, kind + 3 * i) for i in range(4)]
        if kind == 2:
            bank = [torch.tensor(f, dtype=F64) for f in ref.bank(f"db{n // 2}")]
        for name, fn in losses(cls).items():
            key = ("loss", cls.__name__, name, n, kind, str(dt))
            obj = cls(*(b.to(dt).clone() for b in bank))
            pars = [obj.dec_lo, obj.dec_hi, obj.rec_lo, obj.rec_hi]
            g = torch.autograd.grad(fn(obj), pars, allow_unused=True)
            for fi in range(4):
                for j in range(n):
                    def at(t, fi=fi, j=j):
                        b = [q.clone() for q in bank]
                        b[fi][j] += t
                        with torch.no_grad():
                            return float(fn(cls(*b)))

                    want = poly_derivative(at, 4)
                    got = 0.0 if g[fi] is None else float(g[fi][j])
                    tol = (1e-9 if dt is F64 else 3e-4) * max(1.0, abs(want), 0.0 if g[fi] is None else float(g[fi].abs().max()))
                    if not abs(got - want) <= tol:
                        rec.fail(f"derivative in filter {fi}[{j}] is {got} instead of {want}", key)
            rec.case(key)


def units(tier, seed):
    res = []
    for name in CONV + MATRIX + PACKB + CWT:
        count = len(configs(name, tier))
        parts = max(1, count // 5)
        for part in range(parts):
            res.append(dict(kind="fwd", op=name, part=part, parts=parts))
            if OPS[name].has_inverse:
                res.append(dict(kind="inv", op=name, part=part, parts=parts))
    for name in MATRIX:
        res.append(dict(kind="reuse", op=name, what="matrix"))
    for name in PACKB + ["packet1", "packet2", "packet2s"]:
        res.append(dict(kind="reuse", op=name, what="packet"))
    for name in CONV:
        res.append(dict(kind="filters", op=name))
    res += [dict(kind="cwtpar"), dict(kind="losses")]
    return res


def cost(unit):
    k = {"fwd": 2, "inv": 2, "reuse": 5, "filters": 6, "cwtpar": 5, "losses": 5}[unit["kind"]]
    return k * (4 if unit.get("op") in ("matrix2ns", "matrix2nsgs", "packet2b", "matrix3", "fswavedec3", "wavedec3") else 1)


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


_ = to_np
