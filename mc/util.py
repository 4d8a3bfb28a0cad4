"""Helpers shared by the checks."""
from __future__ import annotations

import itertools

import numpy as np
import torch

F32, F64 = torch.float32, torch.float64
DT = {"f32": F32, "f64": F64}
EPS = {F32: 1.2e-7, F64: 2.3e-16}


def tol_for(dtype, scale, factor=2000.0):
    return EPS[dtype] * factor * max(scale, 1e-300)


def to_np(t):
    return t.detach().cpu().resolve_conj().resolve_neg().numpy()


def close(rec, got, want, tol, what, case=None):
    """Shape and value comparison; non-finite entries must agree exactly."""
    if isinstance(got, torch.Tensor):
        got = to_np(got)
    if isinstance(want, torch.Tensor):
        want = to_np(want)
    want = np.asarray(want)
    got = np.asarray(got)
    if got.shape != want.shape:
        rec.fail(f"{what}: shape {got.shape} instead of {want.shape}", case)
    if got.size == 0:
        return 0.0
    fin = np.isfinite(want)
    if not fin.all():
        same = np.isfinite(got) == fin
        if not same.all():
            rec.fail(f"{what}: non-finite entries differ", case)
        diff = np.abs(np.where(fin, got, 0) - np.where(fin, want, 0))
    else:
        if got.dtype == np.float32:
            got = got.astype(np.float64)
        diff = np.abs(got - want)
    err = diff.max()
    if not err <= tol:
        pos = np.unravel_index(int(np.nanargmax(np.where(np.isnan(diff), np.inf, diff))), diff.shape)
        rec.fail(
            f"{what}: {got[pos]!r} instead of {want[pos]!r} at {tuple(int(p) for p in pos)} "
            f"(error {err:.3g}, tolerance {tol:.3g})",
            case,
        )
    return float(err)


def leaves(obj, path=()):
    """All tensors of a coefficient structure with their position."""
    if isinstance(obj, torch.Tensor):
        yield path, obj
    elif isinstance(obj, dict):
        for k in sorted(obj):
            yield from leaves(obj[k], path + (k,))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            yield from leaves(v, path + (i,))
    elif isinstance(obj, np.ndarray):
        yield path, torch.from_numpy(np.ascontiguousarray(obj))
    else:
        raise TypeError(f"unexpected {type(obj)} in a result at {path}")


def tmap(fn, obj):
    """Apply fn to all tensors, keep the structure."""
    if isinstance(obj, torch.Tensor):
        return fn(obj)
    if isinstance(obj, dict):
        return {k: tmap(fn, v) for k, v in obj.items()}
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        return type(obj)(*(tmap(fn, v) for v in obj))
    if isinstance(obj, (list, tuple)):
        return type(obj)(tmap(fn, v) for v in obj)
    raise TypeError(f"unexpected {type(obj)}")


def structure(obj):
    """Type structure of a result, without values."""
    if isinstance(obj, torch.Tensor):
        return ("T", tuple(obj.shape), str(obj.dtype))
    if isinstance(obj, dict):
        return ("dict",) + tuple((k, structure(obj[k])) for k in sorted(obj))
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        return (type(obj).__name__,) + tuple(structure(v) for v in obj)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(structure(v) for v in obj)
    return (type(obj).__name__,)


def dense(shape, dtype=F64, kind=0):
    """Deterministic, structureless test data."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(1, n + 1, dtype=np.float64)
    x = np.sin(i * (1.2345678 + 0.37 * kind) + 0.5 * i * i * 0.0371) + 0.25 * np.cos(
        3.1 * i + kind
    )
    return torch.tensor(x.reshape(shape), dtype=dtype)


def same(rec, got, want, what, case=None, rtol=None):
    """Two results of the code itself must agree (structure and values)."""
    sg, sw = structure(got), structure(want)
    if sg != sw:
        rec.fail(f"{what}: structure {sg} instead of {sw}"[:900], case)
    for (path, g), (_, w) in zip(leaves(got), leaves(want)):
        if torch.equal(g, w):
            continue
        wn = to_np(w)
        fin = np.isfinite(wn)
        scale = float(np.abs(wn[fin]).max()) if fin.any() else 0.0
        eps = EPS.get(g.dtype, 2.3e-16)
        if g.dtype == torch.complex64:
            eps = EPS[F32]
        tol = (rtol if rtol is not None else 200 * eps) * max(scale, 1e-30)
        close(rec, g, w, tol, f"{what} at {path}", case)


def call(fn, *args, **kwargs):
    """(result, None) or (None, exception)."""
    try:
        return fn(*args, **kwargs), None
    except Exception as exc:  # noqa: B902
        return None, exc


def chunks(seq, size):
    seq = list(seq)
    return [seq[i:i + size] for i in range(0, len(seq), size)]


def ordered_pairs(seq):
    return list(itertools.product(seq, repeat=2))


def isolated(fn, *args):
    """fn(*args) evaluated in a child process of its own (no history)."""
    import os
    import pickle

    import signal

    from .core import CRASH_SIGNALS, HarnessError, Violation

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", fn(*args))
            except BaseException as exc:  # noqa: B902
                res = ("exc", type(exc).__name__, str(exc))
            data = pickle.dumps(tmap_any(lambda t: ("__T__", to_np(t)), res))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASH_SIGNALS:
        raise Violation(f"a call crashed its process with signal {os.WTERMSIG(status)}", fn.__name__)
    if status or not data:
        raise HarnessError("an isolated evaluation gave no answer")
    res = untag(pickle.loads(data))
    if res[0] == "exc":
        raise IsolatedError(*res[1:])
    return res[1]


class IsolatedError(Exception):
    pass


def tmap_any(fn, obj):
    """tmap that leaves everything else as it is."""
    if isinstance(obj, torch.Tensor):
        return fn(obj)
    if isinstance(obj, dict):
        return {k: tmap_any(fn, v) for k, v in obj.items()}
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        return type(obj)(*(tmap_any(fn, v) for v in obj))
    if isinstance(obj, (list, tuple)):
        return type(obj)(tmap_any(fn, v) for v in obj)
    return obj


def untag(obj):
    if isinstance(obj, tuple) and len(obj) == 2 and isinstance(obj[0], str) and obj[0] == "__T__":
        return torch.from_numpy(np.array(obj[1]))
    if isinstance(obj, dict):
        return {k: untag(v) for k, v in obj.items()}
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        return type(obj)(*(untag(v) for v in obj))
    if isinstance(obj, (list, tuple)):
        return type(obj)(untag(v) for v in obj)
    return obj
