"""Shared by C08 and C09: the boundary-wavelet matrices of the code, measured
through the public 1-D transform, and compositions of them (numpy)."""
from __future__ import annotations

import functools

import numpy as np
import torch

import ptwt

from . import ref
from .util import DT, to_np


@functools.lru_cache(maxsize=None)
def code_matrix(name, n, orth="qr", dtype="f64"):
    """The one-level analysis matrix, as MatrixWavedec applies it to a basis."""
    eye = torch.eye(n, dtype=DT[dtype])
    res = ptwt.MatrixWavedec(name, 1, orthogonalization=orth)(eye)
    assert len(res) == 2 and all(tuple(r.shape) == (n, n // 2) for r in res), [r.shape for r in res]
    m = np.concatenate([to_np(res[0]).T, to_np(res[1]).T]).astype(np.float64)
    m.setflags(write=False)
    return m


def extend(x, mode, axis=-1):
    """x with one more sample."""
    x = np.moveaxis(x, axis, -1)
    if mode == "zero":
        e = np.zeros_like(x[..., :1])
    elif mode in ("constant", "symmetric"):
        e = x[..., -1:]
    elif mode == "reflect":
        e = x[..., -2:-1]
    elif mode == "periodic":
        e = x[..., :1]
    else:
        raise AssertionError(mode)
    return np.moveaxis(np.concatenate([x, e], -1), -1, axis)


def forward(name, x, mode, level, orth="qr", dtype="f64"):
    """1-D composition along the last axis."""
    f = ref.flen(name)
    res = []
    cur = x
    for lev in range(level):
        n = cur.shape[-1]
        if n % 2 and lev == 0:
            # the first level extends before the length is judged
            cur = extend(cur, mode)
            n += 1
        if n < f:
            break
        if n % 2:
            cur = extend(cur, mode)
            n += 1
        c = cur @ code_matrix(name, n, orth, dtype).T
        res.append(c[..., n // 2:])
        cur = c[..., : n // 2]
    return [cur] + res[::-1]


def inverse(name, coeffs, orth="qr", dtype="f64"):
    cur = coeffs[0]
    for d in coeffs[1:]:
        if cur.shape[-1] == d.shape[-1] + 1:
            cur = cur[..., :-1]
        assert cur.shape[-1] == d.shape[-1]
        c = np.concatenate([cur, d], -1)
        cur = c @ code_matrix(name, c.shape[-1], orth, dtype)
    return cur


def levels(n, f, asked):
    """Number of levels that fit (first level extends odd input first)."""
    done = 0
    cur = n
    for lev in range(asked):
        if cur % 2 and lev == 0:
            cur += 1
        if cur < f:
            break
        cur = (cur + 1) // 2
        done += 1
    return done


def any_padding(n, f, asked):
    """Is a level below the first extended? (the first extends the input)"""
    cur = n + n % 2
    for _ in range(levels(n, f, asked)):
        if cur % 2:
            return True
        cur = (cur + 1) // 2
    return False
