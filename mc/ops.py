"""Uniform view of all transforms: forward(x) -> structure, inverse -> tensor.

Matrix objects and packet trees are created anew for each call.
"""
from __future__ import annotations

import numpy as np
import torch

import ptwt

from . import ref


class Op:
    ndim = 1
    modes = ref.MODES
    axes_ok = True
    has_inverse = True
    has_level = True
    complex = False
    default_mode = None

    def __init__(self, name):
        self.name = name

    def fwd(self, x, w, mode, level, axes=None):
        raise NotImplementedError

    def inv(self, c, w, mode, axes=None):
        raise NotImplementedError

    def __repr__(self):
        return self.name

    def refusable(self, sides, f, mode, level):
        return any(ref.may_refuse_levels(n, f, mode, level) for n in sides)


def _kw(axes, key):
    return {} if axes is None else {key: axes}


class Conv(Op):
    def __init__(self, name, ndim, dec, rec, axkey):
        super().__init__(name)
        self.ndim, self.dec, self.rec, self.axkey = ndim, dec, rec, axkey

    def _ax(self, axes):
        if axes is None:
            return {}
        return {self.axkey: axes[0] if self.axkey == "axis" and len(axes) == 1 else axes}

    def fwd(self, x, w, mode, level, axes=None):
        return self.dec(x, w, mode=mode, level=level, **self._ax(axes))

    def inv(self, c, w, mode, axes=None):
        return self.rec(c, w, **self._ax(axes))


class Swt(Conv):
    modes = (None,)

    def fwd(self, x, w, mode, level, axes=None):
        return ptwt.swt(x, w, level, **self._ax(axes))

    def refusable(self, sides, f, mode, level):
        return False


class Matrix(Op):
    def __init__(self, name, ndim, dec, rec, orth="qr", **extra):
        super().__init__(name)
        self.ndim, self.dec, self.rec = ndim, dec, rec
        self.orth, self.extra = orth, extra

    def make_dec(self, w, mode, level, axes=None):
        kw = dict(self.extra)
        if axes is not None:
            kw["axis" if self.ndim == 1 else "axes"] = axes[0] if self.ndim == 1 and len(axes) == 1 else axes
        if mode is not None:
            kw["odd_coeff_padding_mode"] = mode
        return self.dec(w, level, orthogonalization=self.orth, **kw)

    def make_rec(self, w, axes=None):
        kw = dict(self.extra)
        if axes is not None:
            kw["axis" if self.ndim == 1 else "axes"] = axes[0] if self.ndim == 1 and len(axes) == 1 else axes
        return self.rec(w, orthogonalization=self.orth, **kw)

    def fwd(self, x, w, mode, level, axes=None):
        return self.make_dec(w, mode, level, axes)(x)

    def inv(self, c, w, mode, axes=None):
        return self.make_rec(w, axes)(c)

    def refusable(self, sides, f, mode, level):
        return False


class Packet(Op):
    """All nodes of the tree as a dictionary; inverse sets all, reconstructs."""

    def __init__(self, name, ndim, cls, boundary=False, **extra):
        super().__init__(name)
        self.ndim, self.cls, self.boundary, self.extra = ndim, cls, boundary, extra
        if boundary:
            self.modes = ("boundary",)
        self.letters = "ad" if ndim == 1 else "ahvd"

    def tree(self, x, w, mode, level, axes=None):
        kw = dict(self.extra)
        if axes is not None:
            kw["axis" if self.ndim == 1 else "axes"] = axes[0] if self.ndim == 1 and len(axes) == 1 else axes
        return self.cls(x, w, mode=mode, maxlevel=level, **kw)

    def fwd(self, x, w, mode, level, axes=None):
        wp = self.tree(x, w, mode, level, axes)
        lev = wp.maxlevel
        res = {"": wp[""]}
        for i in range(1, lev + 1):
            for p in ref.product_paths(i, self.letters):
                res[p] = wp[p]
        return res

    def inv(self, c, w, mode, axes=None):
        level = max(map(len, c))
        wp = self.tree(c[""], w, mode, level, axes)
        for k in sorted(c, key=len):
            wp[k] = c[k]
        wp.reconstruct()
        return wp[""]

    def refusable(self, sides, f, mode, level):
        if self.boundary:
            return False
        return super().refusable(sides, f, mode, level)


class Cwt(Op):
    modes = (None,)
    axes_ok = False
    has_inverse = False
    has_level = False

    def __init__(self, name="cwt", wavelet="cmor1.5-1.0", scales=(1, 2.5, 4)):
        super().__init__(name)
        self.wavelet, self.scales = wavelet, scales
        self.complex = wavelet.startswith(("cmor", "shan", "fbsp", "cgau"))

    def fwd(self, x, w, mode, level, axes=None):
        return [ptwt.cwt(x, np.array(self.scales, dtype=float), self.wavelet)[0]]

    def refusable(self, sides, f, mode, level):
        return False


def all_ops():
    p = ptwt
    return [
        Conv("wavedec", 1, p.wavedec, p.waverec, "axis"),
        Conv("wavedec2", 2, p.wavedec2, p.waverec2, "axes"),
        Conv("wavedec3", 3, p.wavedec3, p.waverec3, "axes"),
        Conv("fswavedec2", 2, p.fswavedec2, p.fswaverec2, "axes"),
        Conv("fswavedec3", 3, p.fswavedec3, p.fswaverec3, "axes"),
        Swt("swt", 1, p.swt, p.iswt, "axis"),
        Matrix("matrix1", 1, p.MatrixWavedec, p.MatrixWaverec),
        Matrix("matrix1gs", 1, p.MatrixWavedec, p.MatrixWaverec, orth="gramschmidt"),
        Matrix("matrix2", 2, p.MatrixWavedec2, p.MatrixWaverec2),
        Matrix("matrix2ns", 2, p.MatrixWavedec2, p.MatrixWaverec2, separable=False),
        Matrix("matrix2nsgs", 2, p.MatrixWavedec2, p.MatrixWaverec2, orth="gramschmidt", separable=False),
        Matrix("matrix3", 3, p.MatrixWavedec3, p.MatrixWaverec3),
        Packet("packet1", 1, p.WaveletPacket),
        Packet("packet1b", 1, p.WaveletPacket, boundary=True),
        Packet("packet2", 2, p.WaveletPacket2D),
        Packet("packet2s", 2, p.WaveletPacket2D, separable=True),
        Packet("packet2b", 2, p.WaveletPacket2D, boundary=True),
        Packet("packet2bs", 2, p.WaveletPacket2D, boundary=True, separable=True),
        Cwt(),
        Cwt("cwtreal", "mexh"),
        Cwt("cwtdisc", "db2"),
    ]


OPS = {op.name: op for op in all_ops()}
_ = torch
