"""C17: dtypes and devices are preserved, invalid requests are rejected."""
import itertools
import warnings

import numpy as np
import pywt
import torch

import ptwt
from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from .. import ref
from ..ops import OPS
from ..util import F32, F64, dense, leaves, same, tmap
from .c13 import Custom

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration: all single corruptions of valid requests, all dtype configurations"
RULE = (
    "one case per request: every combination of entry point, direction, data dtype, default "
    "dtype, number type of the wavelet and earlier call for the dtypes; every single "
    "corruption (position x kind) of a valid request for the rejections; every function with "
    "renamed arguments. A case is nontrivial when the uncorrupted request is answered"
)
ASSUMPTIONS = ["the meta device stands for a device different from the CPU"]

META = torch.device("meta")
NAMES = [n for n in OPS if not n.startswith("cwt")]
CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt"]
MATRIX = ["matrix1", "matrix1gs", "matrix2", "matrix2ns", "matrix2nsgs", "matrix3"]
PACKETS = ["packet1", "packet1b", "packet2", "packet2s", "packet2b", "packet2bs"]


def base(name, variant=0):
    """A valid request (wavelet, mode, level, shape)."""
    op = OPS[name]
    long = op.ndim < 3 and name not in ("matrix2ns", "matrix2nsgs", "packet2b")
    modes = [m for m in op.modes]
    if variant == 0:
        mode = "symmetric" if "symmetric" in modes else modes[0]
        shape = {1: (3, 16), 2: (2, 8, 12), 3: (2, 4, 8, 4)}[op.ndim]
        return "db2" if long else "haar", mode, 2 if long else 1, shape
    if variant == 1:
        shape = {1: (2, 15), 2: (1, 9, 7), 3: (1, 5, 6, 7)}[op.ndim]
        if name == "swt":
            shape = (2, 8)
        return "haar", modes[0], 2 if long else 1, shape
    if variant == 2:
        shape = {1: (2, 29), 2: (3, 13, 14), 3: (2, 7, 6, 9)}[op.ndim]
        if name == "swt":
            shape = (2, 24)
        if name.startswith("matrix2ns"):
            shape = (3, 7, 8)
        return "db2", modes[-1], 2 if op.ndim == 1 else 1, shape
    if variant == 5:
        # no batch
        shape = {1: (16,), 2: (8, 12), 3: (4, 8, 4)}[op.ndim]
        return "haar", modes[-1], 2 if long or op.ndim == 3 else 1, shape
    if variant == 6:
        # several batch axes
        return "haar", modes[0], 1, (2, 1, 3) + {1: (10,), 2: (4, 6), 3: (4, 6, 4)}[op.ndim]
    if variant == 4:
        # deep: coefficients in the middle of the list
        if name == "matrix2nsgs":
            return "haar", None, 2, (2, 4, 4)
        deep = {"packet1": 3, "packet1b": 3, "packet2": 2, "packet2s": 2, "packet2b": 2, "packet2bs": 2}.get(name, 4)
        if name == "matrix2ns":
            return "haar", None, 3, (1, 8, 8)
        return "haar", modes[-1], deep, (2,) + (2**deep,) * op.ndim
    shape = {1: (2, 2, 41), 2: (2, 2, 24, 23), 3: (2, 12, 13, 14)}[op.ndim]
    if name in ("matrix2ns", "matrix2nsgs", "packet2b", "packet2bs", "matrix3"):
        return "haar", modes[0], 1, (2, 2) + ((4, 5, 4) if op.ndim == 3 else (6, 7))
    if name == "swt":
        shape = (2, 2, 40)
    return "sym3", modes[0], 3 if op.ndim == 1 and name != "packet1b" else 1, shape


for _op in OPS.values():
    _op.boundary_like = bool(getattr(_op, "boundary", False))


class Named(Custom):
    """A protocol object whose filters are tensors."""

    def __init__(self, bank):
        self.name, self.bank = "tensors", list(bank)

    @property
    def filter_bank(self):
        return tuple(self.bank)


def wavelets(w):
    bank = ref.bank(w)
    return {
        "name": lambda: w,
        "object": lambda: pywt.Wavelet(w),
        "tuple32": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F32) for f in bank)),
        "tuple64": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F64) for f in bank)),
        "grad32": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F32, requires_grad=True) for f in bank)),
        "grad64": lambda: ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F64, requires_grad=True) for f in bank)),
        "learn32": lambda: ProductFilter(*(torch.tensor(f, dtype=F32) for f in bank)),
        "learn64": lambda: SoftOrthogonalWavelet(*(torch.tensor(f, dtype=F64) for f in bank)),
        "floats": lambda: Custom(bank),
        "tensors64": lambda: Named([torch.tensor(f, dtype=F64) for f in bank]),
    }


MATRIX_WAVELETS = ("name", "object", "tuple32", "tuple64", "floats")


def check_dtype(rec, res, dtype, device, what, key):
    for path, t in leaves(res):
        if t.dtype != dtype:
            rec.fail(f"{what}: dtype {t.dtype} instead of {dtype} at {path}", key)
        if t.device.type != device:
            rec.fail(f"{what}: device {t.device} instead of {device} at {path}", key)


def run_dtype(unit, rec):
    op = OPS[unit["op"]]
    w, mode, level, shape = base(unit["op"], unit.get("variant", 0))
    wavs = wavelets(w)
    reps = list(wavs)
    modes = [m for m in op.modes]
    try:
        for default, dt, rep in itertools.product((F32, F64), (F32, F64), reps):
            torch.set_default_dtype(default)
            for lev in (level, None):
                for m in modes if rep in ("name", "tuple64") else modes[:1]:
                    key = ("dtype", op.name, shape, str(default), str(dt), rep, lev, m)
                    x = dense(shape, dt, 2)
                    if op.name == "swt" and lev is None:
                        x = dense((3, 16), dt, 2)
                    if op.name in MATRIX and rep.startswith(("learn", "grad", "tensors")):
                        # the matrices are built from numbers
                        continue
                    if op.boundary_like and rep.startswith(("learn", "grad", "tensors")):
                        continue
                    if op.name in PACKETS and lev is None and rep.startswith("learn"):
                        # the automatic level of a tree needs a wavelet with dec_len
                        continue
                    res = op.fwd(x, wavs[rep](), m, lev)
                    check_dtype(rec, res, dt, "cpu", "forward", key)
                    if op.has_inverse:
                        back = op.inv(tmap(lambda t: t.detach(), res), wavs[rep](), m)
                        check_dtype(rec, back, dt, "cpu", "inverse", key)
                    rec.case(key)
        # an object that was used with the other dtype before
        for default, dt in itertools.product((F32, F64), (F32, F64)):
            torch.set_default_dtype(default)
            other = F64 if dt is F32 else F32
            key = ("reused", op.name, shape, str(default), str(dt))
            if op.name in MATRIX:
                dec, rc = op.make_dec(w, mode, level), op.make_rec(w)
                for d in (other, dt, other):
                    res = dec(dense(shape, d))
                    check_dtype(rec, res, d, "cpu", "reused object", key)
                    check_dtype(rec, rc(res), d, "cpu", "reused inverse object", key)
                rec.case(key)
            if op.name in PACKETS:
                wp = op.tree(dense(shape, other), w, mode, level)
                paths = [p for i in range(level + 1) for p in ref.product_paths(i, op.letters)]
                for d in (other, dt, other):
                    wp.transform(dense(shape, d), level)
                    check_dtype(rec, [wp[p] for p in paths], d, "cpu", "node of a reused tree", key)
                    wp.reconstruct()
                    check_dtype(rec, [wp[p] for p in paths], d, "cpu", "reconstructed node", key)
                rec.case(key)
        torch.set_default_dtype(F32)
        if op.name in CONV + ["packet1", "packet2", "packet2s"]:
            # every tensor on another device
            for dt, m in itertools.product((F32, F64), modes):
                key = ("device", op.name, shape, str(dt), m)
                x = torch.empty(shape, dtype=dt, device=META)
                res = op.fwd(x, w, m, level)
                check_dtype(rec, res, dt, "meta", "forward on another device", key)
                if op.has_inverse:
                    back = op.inv(res, w, m)
                    check_dtype(rec, back, dt, "meta", "inverse on another device", key)
                rec.case(key)
    finally:
        torch.set_default_dtype(F32)


def run_cwt(unit, rec):
    try:
        for default, dt, w in itertools.product((F32, F64), (F32, F64), ("mexh", "cmor1.5-1.0", "gaus2", "shan1.5-1.0")):
            torch.set_default_dtype(default)
            key = ("cwt", str(default), str(dt), w)
            res, freqs = ptwt.cwt(dense((2, 16), dt), np.array([1.0, 2.0]), w)
            want = torch.complex128 if w.startswith(("cmor", "shan")) else F64
            if res.dtype != want:
                rec.fail(f"result has dtype {res.dtype} instead of {want}", key)
            rec.case(key)
    finally:
        torch.set_default_dtype(F32)


# ---------------------------------------------------------------- rejections
def rejected(rec, key, fn, why):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn()
    except Exception:  # noqa: B902
        rec.case(key)
        return
    shapes = None
    try:
        shapes = [tuple(t.shape) for _, t in leaves(res)][:4]
    except TypeError:
        shapes = type(res).__name__
    rec.fail(f"{why} is answered with {shapes} instead of an exception", key)


def replaced(coeffs, path, value):
    """The structure with the element at path replaced."""
    if not path:
        return value
    k, rest = path[0], path[1:]
    if isinstance(coeffs, dict):
        new = dict(coeffs)
        new[k] = replaced(coeffs[k], rest, value)
        return new
    items = list(coeffs)
    items[k] = replaced(items[k], rest, value)
    if isinstance(coeffs, tuple) and hasattr(coeffs, "_fields"):
        return type(coeffs)(*items)
    return type(coeffs)(items)


def packet_leaves(paths):
    """The reconstruction only uses the nodes without children."""
    depth = max(len(path[0]) for path, _ in paths)
    return [(path, t) for path, t in paths if len(path[0]) == depth]


def inv_corruptions(op, coeffs, dt):
    other = F32 if dt is F64 else F64
    paths = list(leaves(coeffs))
    top = isinstance(coeffs, dict)  # packets
    if top:
        paths = packet_leaves(paths)
    for path, t in paths:
        yield "dtype", path, replaced(coeffs, path, t.to(other))
        yield "device", path, replaced(coeffs, path, torch.empty_like(t, device=META))
        for label, val in (("array", t.numpy()), ("list", t.tolist()), ("none", None), ("number", 1.0)):
            yield f"type {label}", path, replaced(coeffs, path, val)
    if top:
        return
    for i in range(1, len(coeffs)):
        el = coeffs[i]
        if isinstance(el, torch.Tensor):
            yield "structure tuple", (i,), replaced(coeffs, (i,), ptwt.WaveletDetailTuple2d(el, el, el))
            yield "structure dict", (i,), replaced(coeffs, (i,), {"d": el})
            yield "structure nested", (i,), replaced(coeffs, (i,), [el])
        elif isinstance(el, dict):
            keys = list(el)
            first = el[keys[0]]
            for k in keys:
                less = {a: b for a, b in el.items() if a != k}
                yield f"missing {k}", (i,), replaced(coeffs, (i,), less)
                less["x" * len(k)] = el[k]
                yield f"renamed {k}", (i,), replaced(coeffs, (i,), less)
            for extra in ("x" * len(keys[0]), "a" * len(keys[0]), "", keys[0] + "a", 0, None):
                yield f"additional {extra!r}", (i,), replaced(coeffs, (i,), {**el, extra: first})
            for nd in {1, 2, 3} - {op.ndim}:
                yield f"details of {nd} axes", (i,), replaced(
                    coeffs, (i,), {"".join(k): first for k in list(itertools.product("ad", repeat=nd))[1:]})
            yield "empty", (i,), replaced(coeffs, (i,), {})
            yield "structure tensor", (i,), replaced(coeffs, (i,), first)
            yield "structure tuple", (i,), replaced(coeffs, (i,), tuple(el.values()))
            yield "structure list", (i,), replaced(coeffs, (i,), list(el.values()))
        else:
            yield "structure pair", (i,), replaced(coeffs, (i,), tuple(el[:2]))
            yield "structure four", (i,), replaced(coeffs, (i,), tuple(el) + (el[0],))
            yield "structure one", (i,), replaced(coeffs, (i,), tuple(el[:1]))
            yield "structure list", (i,), replaced(coeffs, (i,), list(el))
            yield "structure tensor", (i,), replaced(coeffs, (i,), el[0])
            yield "structure dict", (i,), replaced(coeffs, (i,), {"ad": el[0], "da": el[1], "dd": el[2]})
    yield "no coefficients", (), type(coeffs)(())


def shape_corruptions(op, coeffs):
    paths = list(leaves(coeffs))
    if isinstance(coeffs, dict):
        paths = packet_leaves(paths)
    for path, t in paths:
        for dim in range(t.dim()):
            for delta in (-2, -1, 1, 2):
                n = t.shape[dim] + delta
                if n <= 0:
                    continue
                s = list(t.shape)
                s[dim] = n
                yield (path, dim, delta), replaced(coeffs, path, dense(tuple(s), t.dtype))
        if t.dim() > 1:
            yield (path, "squeezed", 0), replaced(coeffs, path, t[0])
        yield (path, "extra", 0), replaced(coeffs, path, torch.stack([t, t]))


def lenient(op, flen, coeffs, path, dim, delta):
    """Shapes that belong to a signal of another length."""
    if dim in ("squeezed", "extra") or dim < next(t for _, t in leaves(coeffs)).dim() - op.ndim:
        return False
    if op.name in ("wavedec", "matrix1", "matrix1gs"):
        if path != (len(coeffs) - 1,) or len(coeffs) < 3:
            return False
        size = 2 * coeffs[-2].shape[-1] - (flen - 2 if op.name == "wavedec" else 0)
        return dim == coeffs[-1].dim() - 1 and coeffs[-1].shape[-1] + delta in (size, size - 1)
    if op.name in ("fswavedec2", "fswavedec3", "matrix3"):
        # the approximation of an odd side may have one entry more
        return path == (0,) and delta == 1
    if op.name == "packet2s":
        return path[0][-1] == "a" and delta == 1
    return False


def run_reject_inv(unit, rec):
    op = OPS[unit["op"]]
    w, mode, level, shape = base(unit["op"], unit.get("variant", 0))
    for dt in (F64, F32):
        coeffs = op.fwd(dense(shape, dt, 2), w, mode, level)
        op.inv(coeffs, w, mode)
        for label, path, bad in inv_corruptions(op, coeffs, dt):
            rejected(rec, ("inv", op.name, shape, str(dt), label, path), lambda: op.inv(bad, w, mode), f"corruption {label} at {path}")
        if op.name in MATRIX:
            # an object that has answered a valid request
            obj = op.make_rec(w)
            obj(coeffs)
            for label, path, bad in inv_corruptions(op, coeffs, dt):
                rejected(rec, ("inv used", op.name, shape, str(dt), label, path), lambda: obj(bad), f"corruption {label} at {path}")


def run_reject_shape(unit, rec):
    op = OPS[unit["op"]]
    w, mode, level, shape = base(unit["op"], unit.get("variant", 0))
    coeffs = op.fwd(dense(shape, F64, 2), w, mode, level)
    for where, bad in shape_corruptions(op, coeffs):
        if lenient(op, len(ref.bank(w)[0]), coeffs, *where):
            continue
        rejected(rec, ("shape", op.name, shape, where), lambda: op.inv(bad, w, mode), f"shape {where}")


def run_reject_fwd(unit, rec):
    op = OPS[unit["op"]]
    w, mode, level, shape = base(unit["op"], unit.get("variant", 0))
    x = dense(shape, F64, 2)
    key = ("fwd", op.name, shape)
    for dt in (torch.int32, torch.int64, torch.uint8, torch.bool, torch.float16, torch.bfloat16, torch.complex64,
               torch.complex128):
        rejected(rec, key + (str(dt),), lambda: op.fwd(x.to(dt), w, mode, level), f"data of dtype {dt}")
    for label, val in (("array", x.numpy()), ("list", x.tolist()), ("none", None), ("number", 1.0)):
        if label == "none" and op.name.startswith("packet"):
            continue
        rejected(rec, key + (label,), lambda: op.fwd(val, w, mode, level), f"data of type {label}")
    for bad in ("nosuch", "", "db", "DB2x", "cmor1.5-1.0", "mexh", 3, None):
        rejected(rec, key + ("wavelet", str(bad)), lambda: op.fwd(x, bad, mode, level), f"wavelet {bad!r}")
    if op.modes[0] is not None:
        xo = dense(tuple(n - 1 + n % 2 for n in shape), F64, 2)
        for bad in ("nosuch", "", "Zero", "symmetric ", "per", "smooth", 1):
            rejected(rec, key + ("mode", str(bad)), lambda: op.fwd(xo, w, bad, level), f"mode {bad!r}")
    for nd in range(op.ndim):
        small = dense((8,) * nd, F64)
        rejected(rec, key + ("dims", nd), lambda: op.fwd(small, w, mode, level), f"data with {nd} axes")
    if op.axes_ok:
        nd = op.ndim
        good = tuple(range(1, nd + 1))
        dims = len(shape)
        bads = [good[:-1], good + (0,), (7,) + good[1:], (-7,) + good[1:], (dims,) + good[1:],
                (-dims - 1,) + good[1:]]
        if nd > 1:
            # the same axis twice, by any pair of its names
            for i, j in itertools.combinations(range(nd), 2):
                for a in range(-dims, dims):
                    for b in (a, a - dims if a >= 0 else a + dims):
                        bad = list(range(1, nd + 1))
                        bad[i], bad[j] = a, b
                        bads.append(tuple(bad))
        else:
            bads += [(0, 0), (0, -dims)]
        for bad in bads:
            if len(bad) == nd == 1 and bad[0] in (0, 1):
                continue
            if nd == 1 and not bad:
                continue
            rejected(rec, key + ("axes", bad), lambda: op.fwd(x, w, mode, level, bad), f"axes {bad}")
    if op.name in MATRIX:
        for bad in (0, -1, -3):
            rejected(rec, key + ("level", bad), lambda: op.fwd(x, w, mode, bad), f"level {bad}")
        for bad in ("nosuch", "", "QR", None, 1):
            for maker in (op.dec, op.rec):
                rejected(rec, key + ("orth", str(bad), maker.__name__),
                         lambda: maker(w, orthogonalization=bad)(x), f"orthogonalization {bad!r}")
    if op.name in PACKETS:
        for bad in ("nosuch", "", "Freq", None, 1):
            rejected(rec, key + ("order", str(bad)), lambda: op.cls.get_level(2, bad), f"order {bad!r}")
        wp = op.tree(x, w, mode, level)
        for bad in ("x", "ax", "xa", "a" * (level + 1), "A", " "):
            rejected(rec, key + ("path", bad), lambda: wp[bad], f"node {bad!r}")
        if op.boundary_like:
            rejected(rec, key + ("orth",), lambda: op.cls(x, w, mode="boundary", maxlevel=1, orthogonalization="nosuch")["a"],
                     "orthogonalization 'nosuch'")
    # filters of different lengths
    boundary = op.name in MATRIX or op.boundary_like
    coeffs = op.fwd(x, w, mode, level) if op.has_inverse else None
    for i in range(4):
        bank = [list(f) for f in ref.bank(w)]
        bank[i] = bank[i] + [0.0, 0.0]
        wav = ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=F64) for f in bank))
        for label, v in (("tuple", wav), ("object", Custom(bank))):
            why = f"filter {i} of another length ({label})"
            # the matrix transforms compare dec_len and rec_len, the lengths
            # of the two lowpass filters; the others use two of the four filters
            if i in ((0, 2) if boundary else (0, 1)):
                rejected(rec, key + ("length", i, label), lambda: op.fwd(x, v, mode, level), why)
            if op.has_inverse and i in ((0, 2) if boundary else (2, 3)):
                rejected(rec, key + ("inverse length", i, label), lambda: op.inv(coeffs, v, mode), why)


# ---------------------------------------------------------------- renamed arguments
def aliased():
    """(name, old argument, new argument, call with keyword arguments)."""
    cpu = torch.device("cpu")
    x1, x2, x3 = dense((2, 16), F64), dense((2, 8, 12), F64), dense((1, 4, 8, 4), F64)
    old, new = "boundary", "orthogonalization"
    for n, x, dec, rec_ in ((1, x1, ptwt.MatrixWavedec, ptwt.MatrixWaverec), (2, x2, ptwt.MatrixWavedec2, ptwt.MatrixWaverec2),
                            (3, x3, ptwt.MatrixWavedec3, ptwt.MatrixWaverec3)):
        w = "db2" if n < 3 else "haar"
        coeffs = dec(w, 1)(x)
        yield f"MatrixWavedec{n}", old, new, lambda dec=dec, x=x, w=w, **kw: dec(w, 1, **kw)(x)
        yield f"MatrixWaverec{n}", old, new, lambda rec_=rec_, c=coeffs, w=w, **kw: rec_(w, **kw)(c)
        if n < 3:
            for sep in (True, False) if n == 2 else ():
                yield (f"MatrixWavedec2 {sep}", old, new,
                       lambda dec=dec, x=x, sep=sep, **kw: dec("haar", 1, separable=sep, **kw)(x))
    for fn in (construct_boundary_a, construct_boundary_s):
        yield fn.__name__, old, new, lambda fn=fn, **kw: fn("db2", 12, cpu, dtype=F64, **kw)
    for fn in (construct_boundary_a2, construct_boundary_s2):
        yield fn.__name__, old, new, lambda fn=fn, **kw: fn("db2", 4, 6, cpu, dtype=F64, **kw)
    for cls, x, path in ((ptwt.WaveletPacket, x1, "ad"), (ptwt.WaveletPacket2D, x2, "h")):
        yield (cls.__name__, "boundary_orthogonalization", new,
               lambda cls=cls, x=x, path=path, **kw: cls(x, "db2", mode="boundary", maxlevel=2, **kw)[path])


def to_dense(res):
    return res.to_dense() if isinstance(res, torch.Tensor) and res.is_sparse else res


def run_alias(unit, rec):
    for name, old, new, fn in aliased():
        for value in ("qr", "gramschmidt", "nosuch"):
            key = ("alias", name, value)
            outs = []
            for arg in (new, old):
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter("always")
                    try:
                        out = to_dense(fn(**{arg: value}))
                    except Exception as e:  # noqa: B902
                        out = type(e)
                outs.append(out)
                hits = [w for w in log if issubclass(w.category, DeprecationWarning) and old in str(w.message)]
                if bool(hits) != (arg == old):
                    rec.fail(f"{name}({arg}=...): {len(hits)} deprecation warnings", key)
            a, b = outs
            if isinstance(a, type) or isinstance(b, type):
                if a is not b or value != "nosuch":
                    rec.fail(f"{name}: {new}={value!r} gives {a}, {old}={value!r} gives {b}", key)
            elif value == "nosuch":
                rec.fail(f"{name}: the unknown method is accepted", key)
            else:
                same(rec, b, a, f"{name}: {old}={value!r} instead of {new}={value!r}", key)
            rec.case(key)
        default = to_dense(fn())
        same(rec, default, to_dense(fn(**{new: "qr"})), f"{name}: the default instead of qr", ("alias default", name))
        for v1, v2 in itertools.product(("qr", "gramschmidt"), repeat=2):
            key = ("both", name, v1, v2)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    fn(**{old: v1, new: v2})
            except TypeError:
                rec.case(key)
            else:
                rec.fail(f"{name}: both {old} and {new} are accepted", key)


def units(tier, seed):
    res = []
    for variant in (0, 1, 4, 5, 6) if tier == "quick" else range(7):
        for n in NAMES:
            res.append(dict(kind="dtype", op=n, variant=variant))
            res.append(dict(kind="reject_fwd", op=n, variant=variant))
            if OPS[n].has_inverse:
                res.append(dict(kind="reject_inv", op=n, variant=variant))
                res.append(dict(kind="reject_shape", op=n, variant=variant))
    return res + [dict(kind="cwt"), dict(kind="alias")]


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
