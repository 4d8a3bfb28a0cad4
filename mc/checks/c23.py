"""C23: every way of passing the same arguments means the same call."""
import itertools
import warnings

import numpy as np
import pywt
import torch

import ptwt
from ptwt import matmul_transform as m1, matmul_transform_2 as m2, sparse_math as sm
from ptwt.packets import WaveletPacket, WaveletPacket2D

from .. import ref
from ..util import F32, F64, call, dense, same, tmap
from .c21 import depth, swt_depth

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of all argument assignments (omitted, default, None, other value) and of all "
             "spellings (positional, keyword, deprecated keyword) of every entry point, against the call that spells "
             "out the documented defaults")
RULE = (
    "one case per (entry point, input, assignment of every optional argument to omitted, explicit default or "
    "another value) and per (entry point, input, spelling of the arguments); the product over all optional "
    "arguments is enumerated; non-trivial: the result was compared with the call that names every argument, or "
    "both raised the same exception"
)
ASSUMPTIONS = ["calls that name every argument are decided by C01 to C12 and C18"]
FRESH = True


class Par:
    """Optional argument: its documented default and what else to pass.

    A default that depends on other arguments is a function of their values.
    """

    def __init__(self, name, default, others=(), none=False, old=None):
        self.name, self.default, self.others, self.none, self.old = name, default, others, none, old

    def choices(self):
        """(label, what is passed, what it means); DEFAULT stands for the default."""
        res = [("omitted", OMIT, DEFAULT), ("default", DEFAULT, DEFAULT)]
        if self.none:
            res.append(("None", None, DEFAULT))
        return res + [(repr(v), v, v) for v in self.others]


OMIT, DEFAULT = object(), object()


def resolve(pars, values):
    """Values with DEFAULT replaced by the documented value."""
    known = {p.name: v for p, v in zip(pars, values) if v is not DEFAULT}
    known.update({p.name: p.default for p, v in zip(pars, values) if v is DEFAULT and not callable(p.default)})
    return [(known[p.name] if p.name in known else p.default(known)) for p in pars]


class Entry:
    """fn(*required, **optional); `finish` turns its result into tensors.

    `required` are (name, value) pairs, `positional` the number of optional arguments
    that may follow them by position.
    """

    def __init__(self, name, fn, required, pars, finish=None, positional=0, plain=True):
        self.name, self.fn, self.required, self.pars = name, fn, required, pars
        self.finish = finish or (lambda r: r)
        self.positional = positional
        self.plain = plain


def evaluate(entry, args, kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res, exc = call(lambda: densed(entry.finish(entry.fn(*args, **kwargs))))
    return res, exc


def densed(res):
    return tmap(lambda t: t.to_dense() if t.layout is torch.sparse_coo else t, res)


def compare(rec, entry, got, want, what, key):
    (g, ge), (w, we) = got, want
    rec.case(key)
    if we is not None:
        rec.check(ge is not None and type(ge) is type(we),
                  lambda: f"{entry.name}: {what}: {ge!r} instead of {we!r}", key)
        return
    rec.check(ge is None, lambda: f"{entry.name}: {what}: raised {ge!r}", key)
    same(rec, g, w, f"{entry.name}: {what}", key)


def check_entry(rec, entry, label):
    req = [v for _, v in entry.required]
    cache = {}

    def full(meant):
        ident = repr(meant)
        if ident not in cache:
            cache[ident] = evaluate(entry, req, dict(zip([p.name for p in entry.pars], meant)))
        return cache[ident]

    # ---- every assignment
    for combo in itertools.product(*(p.choices() for p in entry.pars)):
        meant = resolve(entry.pars, [c[2] for c in combo])
        kwargs = {p.name: (m if c[1] is DEFAULT else c[1])
                  for p, c, m in zip(entry.pars, combo, meant) if c[1] is not OMIT}
        key = (entry.name, label, tuple(c[0] for c in combo))
        compare(rec, entry, evaluate(entry, req, kwargs), full(meant),
                f"arguments {dict((p.name, c[0]) for p, c in zip(entry.pars, combo))}", key)
        rec.count("assignments")
    # ---- every spelling
    for raw in itertools.product(*([DEFAULT] + list(p.others) for p in entry.pars)):
        combo = resolve(entry.pars, raw)
        want = full(combo)
        opt = [(p.name, v) for p, v in zip(entry.pars, combo)]
        for nreq in range(len(entry.required) + 1):
            for npos in range(entry.positional + 1) if nreq == len(entry.required) else (0,):
                args = req[:nreq] + [v for _, v in opt[:npos]]
                kw = list(entry.required[nreq:]) + opt[npos:]
                for order in (kw, kw[::-1]):
                    key = (entry.name, label, "spelling", repr(combo), nreq, npos, tuple(k for k, _ in order))
                    compare(rec, entry, evaluate(entry, args, dict(order)), want,
                            f"{nreq}+{npos} positional arguments", key)
                    rec.count("spellings")
        for i, p in enumerate(entry.pars):
            if not p.old:
                continue
            others = [(o, r is DEFAULT) for j, (o, r) in enumerate(zip(opt, raw)) if j != i]
            for omit in itertools.product((False, True), repeat=len(others)):
                if any(skip and not is_default for skip, (_, is_default) in zip(omit, others)):
                    continue
                kw = dict(o for (o, _), skip in zip(others, omit) if not skip)
                kw[p.old] = combo[i]
                key = (entry.name, label, "deprecated", repr(combo), omit)
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always")
                    got = call(lambda: densed(entry.finish(entry.fn(*req, **kw))))
                compare(rec, entry, got, want, f"deprecated argument {p.old}", key)
                rec.check(any(issubclass(s.category, DeprecationWarning) and p.old in str(s.message) for s in seen),
                          f"{entry.name}: no warning for the deprecated argument {p.old}", key)
                kw[p.name] = combo[i]
                got = evaluate(entry, req, kw)
                rec.check(isinstance(got[1], TypeError), lambda: f"{entry.name}: both spellings were accepted: {got}", key)
    # ---- names that do not exist
    for bad in ("nonsense", "boundary_mode"):
        got = evaluate(entry, req, {bad: "zero"})
        key = (entry.name, label, bad)
        rec.case(key)
        rec.check(isinstance(got[1], TypeError), f"{entry.name}: unknown argument {bad} was accepted", key)


# ------------------------------------------------------------ entry points
def tree_nodes(p):
    letters = "ad" if isinstance(p, WaveletPacket) else "ahvd"
    res = {"": p[""]}
    for i in range(1, p.maxlevel + 1):
        for q in ref.product_paths(i, letters):
            res[q] = p[q]
    return dict(nodes=res, level=torch.tensor(p.maxlevel))


def tree_all(p):
    nodes = tree_nodes(p)
    back = p.reconstruct()[""]
    return [nodes, back]


def sizes(shape, axes):
    return [shape[a] for a in axes]


def entries(w, shape, dt, nd):
    """All entry points that take data of this shape."""
    x = dense(shape, dt, 1)
    f = ref.flen(w)
    last = tuple(range(-nd, 0))
    front = tuple(range(nd))[::-1]
    axname = "axis" if nd == 1 else "axes"
    wav, data = ("wavelet", w), ("data", x)

    def ax_of(known):
        ax = known[axname]
        return (ax,) if nd == 1 else ax

    def auto(known):
        return depth(min(sizes(shape, ax_of(known))), f)

    def auto_even(known):
        n = shape[known["axis"]]
        return depth(n + n % 2, f) or None

    def auto_matrix(known):
        """Matrix objects refuse level 0, which None may amount to."""
        return auto(known) or None

    def auto_swt(known):
        return swt_depth(shape[known["axis"]])

    def lev(default=auto, name="level", small=False):
        return Par(name, default, (1,), none=True)

    def along(*others, none=True):
        """The axes argument; None is documented for some functions only."""
        return Par(axname, -1 if nd == 1 else last, others, none=none)

    reflect = Par("mode", "reflect", ("zero",))
    orth = Par("orthogonalization", "qr", ("gramschmidt",), old="boundary")
    porth = Par("orthogonalization", "qr", ("gramschmidt",), old="boundary_orthogonalization")
    odd = Par("odd_coeff_padding_mode", "zero", ("constant",))
    other = 0 if nd == 1 else front
    fits = all(n >= f for n in sizes(shape, last)) and all(n >= f for n in shape[:nd])
    even = all(n % 2 == 0 for n in sizes(shape, last))
    if nd == 1:
        yield Entry("wavedec", ptwt.wavedec, [data, wav], [reflect, lev(), along(other, none=False)])
        for level in (1, 2):
            cs = ptwt.wavedec(x, w, mode="zero", level=level)
            yield Entry(f"waverec{level}", ptwt.waverec, [("coeffs", cs), wav], [along()])
            cs = ptwt.wavedec(x, w, mode="zero", level=level, axis=0)
            yield Entry(f"waverec{level}other", ptwt.waverec, [("coeffs", cs), wav], [along(0)])
        yield Entry("swt", ptwt.swt, [data, wav], [lev(auto_swt), along(other)], positional=1)
        if shape[-1] % 4 == 0:
            sc = ptwt.swt(x, w, 2)
            yield Entry("iswt", ptwt.iswt, [("coeffs", sc), wav], [along(other)])
        yield Entry("MatrixWavedec", ptwt.MatrixWavedec, [wav], [lev(auto_even), along(other), orth, odd],
                    lambda m: m(x), positional=1)
        if fits:
            ms = ptwt.MatrixWavedec(w, 1)(x)
            yield Entry("MatrixWaverec", ptwt.MatrixWaverec, [wav], [along(), orth], lambda m: m(ms))
            mo = ptwt.MatrixWavedec(w, 1, axis=0)(x)
            yield Entry("MatrixWaverec-other", ptwt.MatrixWaverec, [wav], [along(0), orth], lambda m: m(mo))
        cls, more = ptwt.WaveletPacket, []
        small = True
    elif nd == 2:
        yield Entry("wavedec2", ptwt.wavedec2, [data, wav], [reflect, lev(), along(other, none=False)])
        yield Entry("fswavedec2", ptwt.fswavedec2, [data, wav], [reflect, lev(), along(other)])
        c2 = ptwt.wavedec2(x, w, mode="zero", level=1)
        fs = ptwt.fswavedec2(x, w, mode="zero", level=1)
        yield Entry("waverec2", ptwt.waverec2, [("coeffs", c2), wav], [along(last[::-1], other)])
        yield Entry("fswaverec2", ptwt.fswaverec2, [("coeffs", fs), wav], [along(last[::-1], other)])
        sep = Par("separable", True, (False,))
        yield Entry("MatrixWavedec2", ptwt.MatrixWavedec2, [wav], [lev(auto_matrix), along(other), orth, sep, odd],
                    lambda m: m(x), positional=1)
        if fits and even:
            mc = ptwt.MatrixWavedec2(w, 1)(x)
            yield Entry("MatrixWaverec2", ptwt.MatrixWaverec2, [wav], [along(last[::-1]), orth, sep], lambda m: m(mc))
        cls, more = ptwt.WaveletPacket2D, [Par("separable", False, (True,))]
        small = depth(max(shape), f) <= 2
    else:
        yield Entry("wavedec3", ptwt.wavedec3, [data, wav], [Par("mode", "zero", ("reflect",)), lev(), along(other, none=False)])
        yield Entry("fswavedec3", ptwt.fswavedec3, [data, wav], [reflect, lev(), along(other)])
        c3 = ptwt.wavedec3(x, w, mode="zero", level=1)
        fs = ptwt.fswavedec3(x, w, mode="zero", level=1)
        yield Entry("waverec3", ptwt.waverec3, [("coeffs", c3), wav], [along((-1, -3, -2), other)])
        yield Entry("fswaverec3", ptwt.fswaverec3, [("coeffs", fs), wav], [along((-1, -3, -2), other)])
        yield Entry("MatrixWavedec3", ptwt.MatrixWavedec3, [wav], [lev(auto_matrix), along(other), orth, odd], lambda m: m(x), positional=1)
        if fits and even:
            mc = ptwt.MatrixWavedec3(w, 1)(x)
            yield Entry("MatrixWaverec3", ptwt.MatrixWaverec3, [wav], [along((-1, -3, -2)), orth], lambda m: m(mc))
        small = False
    if small:
        name = cls.__name__
        yield Entry(name, cls, [data, wav], [reflect, lev(name="maxlevel"), along(other), porth] + more, tree_all)
        if fits:
            yield Entry(name + "-boundary", bound(cls, mode="boundary"), [data, wav],
                        [lev(name="maxlevel"), along(other), porth] + more, tree_nodes)

        def top(known):
            return depth(min(sizes(shape, last)), f)

        for mode in ("reflect", "boundary") if fits else ("reflect",):
            made = lambda *a, mode=mode, **k: cls(None, w, mode=mode).transform(*a, **k)  # noqa: E731
            yield Entry(f"{name}.transform-{mode}", made, [data], [Par("maxlevel", top, (1,), none=True)], tree_nodes, positional=1)
            again = lambda *a, mode=mode, **k: cls(x, w, mode=mode, maxlevel=1).transform(*a, **k)  # noqa: E731
            yield Entry(f"{name}.transform-again-{mode}", again, [data], [Par("maxlevel", top, (1,), none=True)], tree_nodes,
                        positional=1)


def bound(fn, **fixed):
    return lambda *a, **k: fn(*a, **fixed, **k)


def general():
    """Entry points without data of a variable shape."""
    for cls in (WaveletPacket, WaveletPacket2D):
        for level in range(4 if cls is WaveletPacket else 3):
            def as_tensor(paths):
                flat = paths if isinstance(paths[0], str) else ["|".join(r) for r in paths]
                return torch.tensor([ord(c) for c in ";".join(flat)])

            yield Entry(f"{cls.__name__}.get_level", cls.get_level, [("level", level)], [Par("order", "freq", ("natural",))],
                        as_tensor, positional=1)
    x = dense((2, 40), F64, 1)
    scales = np.arange(1, 6, dtype=float)

    def finish(res):
        return [res[0], torch.as_tensor(np.array(res[1]))]

    for wavelet in ("cmor1.5-1.0", "shan1-1", "mexh", "gaus2", "morl", "db3", pywt.ContinuousWavelet("fbsp2-1-1")):
        yield Entry("cwt", ptwt.cwt, [("data", x), ("scales", scales), ("wavelet", wavelet)],
                    [Par("sampling_period", 1.0, (0.25,)), Par("precision", 12, (8,))], finish, positional=2)
    h = dense((4,), F64, 2)
    for n in (4, 7, 9):
        yield Entry("construct_conv_matrix", sm.construct_conv_matrix, [("filter", h), ("input_rows", n)],
                    [Par("mode", "valid", ("full", "same", "sameshift"))])
        yield Entry("construct_strided_conv_matrix", sm.construct_strided_conv_matrix, [("filter", h), ("input_rows", n)],
                    [Par("stride", 2, (1, 3)), Par("mode", "valid", ("full", "same", "sameshift"))], positional=1)
    h2 = dense((3, 4), F64, 3)
    for r, c in ((4, 4), (5, 7), (6, 5)):
        req = [("filter", h2), ("input_rows", r), ("input_columns", c)]
        yield Entry("construct_conv2d_matrix", sm.construct_conv2d_matrix, req,
                    [Par("mode", "valid", ("full", "same", "sameshift")), Par("fully_sparse", True, (False,))])
        yield Entry("construct_strided_conv2d_matrix", sm.construct_strided_conv2d_matrix, req,
                    [Par("stride", 2, (1, 3)), Par("mode", "full", ("valid", "same", "sameshift"))], positional=1)
    orth = Par("orthogonalization", "qr", ("gramschmidt",), old="boundary")
    dev, dt = Par("device", "cpu"), Par("dtype", F64, (F32,))
    for w in ("haar", "db2", "db3", "bior2.2"):
        f = ref.flen(w)
        for n in (f, f + 2, 2 * f + 4):
            for fn in (m1.construct_boundary_a, m1.construct_boundary_s):
                yield Entry(fn.__name__, fn, [("wavelet", w), ("length", n)], [dev, orth, dt], positional=3)
            matrix = m1._construct_a(w, n, dtype=F64)
            yield Entry("orthogonalize", m1.orthogonalize, [("matrix", matrix), ("filt_len", f)],
                        [Par("method", "qr", ("gramschmidt",))], positional=1)
        for fn in (m2.construct_boundary_a2, m2.construct_boundary_s2):
            yield Entry(fn.__name__, fn, [("wavelet", w), ("height", f), ("width", f + 2), ("device", "cpu")],
                        [orth, dt], positional=2 if fn is m2.construct_boundary_a2 else 0)


SHAPES = {
    1: [(9, 24), (16, 16), (12, 37), (8, 48), (5, 3)],
    2: [(9, 10), (2, 12, 14), (8, 8), (10, 6, 13), (5, 3)],
    3: [(6, 8, 10), (2, 6, 6, 8), (7, 5, 6), (3, 2, 5)],
}


PARTS = {1: 4, 2: 10, 3: 2}


def cost(unit):
    return unit.get("nd", 1) % 3 * (2 if unit.get("wavelet") == "db2" else 1)


def units(tier, seed):
    res = [dict(kind="general", part=i) for i in range(8)]
    for nd, shapes in SHAPES.items():
        for shape in shapes + ([(16, 16), (3, 17, 12)] if nd == 2 and tier != "quick" else []):
            for w in ("haar", "db2", "db3", "sym4") if nd == 1 else ("haar", "db2"):
                for dt in ("f64", "f32") if tier != "quick" else ("f64",):
                    for part in range(PARTS[nd]):
                        res.append(dict(kind="data", nd=nd, shape=list(shape), wavelet=w, dt=dt, part=part))
    return res


def run(unit, rec):
    if unit["kind"] == "general":
        for i, entry in enumerate(general()):
            if i % 8 == unit["part"]:
                check_entry(rec, entry, i)
        return
    dt = F64 if unit["dt"] == "f64" else F32
    label = (tuple(unit["shape"]), unit["wavelet"], unit["dt"])
    for i, entry in enumerate(entries(unit["wavelet"], tuple(unit["shape"]), dt, unit["nd"])):
        if i % PARTS[unit["nd"]] == unit["part"]:
            check_entry(rec, entry, label)
