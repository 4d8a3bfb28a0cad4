"""C18: sparse building blocks equal their dense definitions."""
import itertools

import numpy as np
import scipy.signal
import torch

from ptwt import sparse_math as sm

from ..util import F32, F64, call, close, dense, to_np

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration of all small arguments against the dense definitions"
RULE = (
    "one case per call: all matrices up to the stated sizes over a value alphabet (with zeros, "
    "also stored explicitly, and duplicated entries), all filters, sizes, modes, strides, offsets "
    "and dtypes; a case is nontrivial when a matrix was returned and compared entry by entry"
)
ASSUMPTIONS = ["torch's conversion of sparse to dense tensors"]

ALPHA = (0.0, 1.0, -2.0)
MODES = ("full", "valid", "same", "sameshift")


# ------------------------------------------------------------ inputs
def matrices(rows, cols, alpha=ALPHA):
    for vals in itertools.product(alpha, repeat=rows * cols):
        yield np.array(vals).reshape(rows, cols)


STORAGE = ("plain", "explicit zeros", "duplicates", "reversed", "csr")


def stored(a, dtype, how):
    """The matrix in different but equal sparse representations."""
    t = torch.tensor(a, dtype=dtype)
    if how == "plain":
        return t.to_sparse()
    if how == "csr":
        return t.to_sparse_csr()
    rows, cols = a.shape
    idx = [(i, j) for i in range(rows) for j in range(cols)]
    if how == "explicit zeros":
        pos, vals = idx, [a[i, j] for i, j in idx]
    elif how == "reversed":
        pos = [p for p in reversed(idx) if a[p]]
        vals = [a[p] for p in pos]
    else:
        pos = [p for p in idx for _ in (0, 1)]
        vals = [v for p in idx for v in (a[p] + 3.0, -3.0)]
    ind = torch.tensor(pos, dtype=torch.long).reshape(-1, 2).T
    return torch.sparse_coo_tensor(ind, torch.tensor(vals, dtype=dtype), size=a.shape)


def check(rec, got, want, dtype, what, key, tol=None):
    if not isinstance(got, torch.Tensor):
        rec.fail(f"{what}: returned {type(got)}", key)
    if got.dtype != dtype:
        rec.fail(f"{what}: dtype {got.dtype} instead of {dtype}", key)
    if tuple(got.shape) != want.shape:
        rec.fail(f"{what}: shape {tuple(got.shape)} instead of {want.shape}", key)
    full = got if got.layout == torch.strided else got.to_dense()
    if dtype == torch.bfloat16:
        full = full.to(F64)
    eps = 1e-12 if dtype in (F64, torch.complex128) else 2e-5
    scale = float(np.abs(want).max()) if want.size else 0.0
    close(rec, full, want, eps * max(scale, 1.0) if tol is None else tol, what, key)
    rec.case(key)


def raises(rec, fn, why, key, empty_ok=False):
    res, exc = call(fn)
    if exc is None and not (empty_ok and 0 in res.shape):
        rec.fail(f"{why}: returned a tensor of shape {tuple(res.shape)} instead of raising", key)
    rec.case(key)


# ------------------------------------------------------------ Kronecker products
def run_kron(unit, rec):
    shapes = unit["shapes"]
    for (sa, sb) in shapes:
        for a in matrices(*sa):
            for b in matrices(*sb):
                want = np.kron(a, b)
                for dtype in (F64, F32):
                    key = ("kron", sa, sb, a.tolist(), b.tolist(), str(dtype))
                    check(rec, sm.sparse_kron(stored(a, dtype, "plain"), stored(b, dtype, "plain")), want, dtype, "sparse_kron", key)


def run_kron_storage(unit, rec):
    mats = [np.zeros((2, 2)), np.eye(2), np.array([[0, 1.0, 0], [2, 0, -1]]), np.array([[1.0], [0], [3]]), np.array([[5.0]]),
            np.zeros((1, 3)), np.arange(6.0).reshape(2, 3)]
    dtypes = (F64, F32, torch.complex128)
    for a, b in itertools.product(mats, repeat=2):
        for ha, hb in itertools.product(STORAGE[:4], repeat=2):
            for da, db in itertools.product(dtypes, repeat=2):
                ta, tb = stored(a, da, ha), stored(b, db, hb)
                before = (ta.to_dense().clone(), tb.to_dense().clone())
                key = ("kron", a.tolist(), b.tolist(), ha, hb, str(da), str(db))
                check(rec, sm.sparse_kron(ta, tb), np.kron(a, b), torch.promote_types(da, db), f"sparse_kron of {ha}, {hb}", key)
                if not (torch.equal(before[0], ta.to_dense()) and torch.equal(before[1], tb.to_dense())):
                    rec.fail("sparse_kron changed its arguments", key)
        # results are usable as factors again
        key = ("nested", a.tolist(), b.tolist())
        t = sm.sparse_kron(sm.sparse_kron(stored(a, F64, "plain"), stored(b, F64, "plain")), stored(a, F64, "plain"))
        check(rec, t, np.kron(np.kron(a, b), a), F64, "nested sparse_kron", key)
    one = stored(np.eye(2), F64, "plain")
    raises(rec, lambda: sm.sparse_kron(one, one.to("meta")), "factors on two devices", ("devices",))


# ------------------------------------------------------------ elongation
def run_eye(unit, rec):
    for n in range(1, 4):
        mats = matrices(n, n) if n < 3 else (np.diag(v) + np.triu(np.ones((3, 3)), 2) for v in itertools.product(ALPHA, repeat=3))
        for a in mats:
            for new in range(n, n + 5):
                want = np.eye(new)
                want[:n, :n] = a
                for dtype in (F64, F32, torch.complex128, torch.bfloat16):
                    for how in STORAGE[:4]:
                        t = stored(a, dtype, how)
                        key = ("eye", a.tolist(), new, str(dtype), how)
                        check(rec, sm.cat_sparse_identity_matrix(t, new), want, dtype, "cat_sparse_identity_matrix", key)
            for new in range(n):
                raises(rec, lambda: sm.cat_sparse_identity_matrix(stored(a, F64, "plain"), new), f"new length {new} < {n}",
                       ("eye small", a.tolist(), new))
    for new in (255, 256, 257, 300, 513, 2049, 2051, 4100):
        a = np.array([[2.0, 1.0], [0.0, 3.0]])
        for dtype in (F64, F32, torch.bfloat16, torch.float16):
            got = sm.cat_sparse_identity_matrix(stored(a, dtype, "plain"), new).coalesce()
            key = ("eye large", new, str(dtype))
            want = sorted([((0, 0), 2.0), ((0, 1), 1.0), ((1, 1), 3.0)] + [((i, i), 1.0) for i in range(2, new)])
            vals = sorted((tuple(p), v) for p, v in zip(got.indices().T.tolist(), got.values().to(F64).tolist()) if v)
            if tuple(got.shape) != (new, new) or vals != want:
                rec.fail("cat_sparse_identity_matrix is wrong for a long matrix", key)
            rec.case(key)
    for rows, cols in itertools.permutations(range(1, 4), 2):
        raises(rec, lambda: sm.cat_sparse_identity_matrix(torch.ones(rows, cols).to_sparse(), 5), "not square", ("shape", rows, cols))
    raises(rec, lambda: sm.cat_sparse_identity_matrix(torch.eye(2), 4), "dense matrix", ("dense",))
    raises(rec, lambda: sm.cat_sparse_identity_matrix(torch.ones(2, 2, 2).to_sparse(), 4), "three axes", ("three",))


# ------------------------------------------------------------ diagonals
def run_diag(unit, rec):
    top = 5 if rec.tier == "quick" else 7
    for length in range(0, top + 1):
        for rows, cols in itertools.product(range(1, top + 1), repeat=2):
            for off in range(-top - 2, top + 3):
                for dtype in (F64, F32):
                    diag = torch.arange(1, length + 1, dtype=dtype)
                    want = np.zeros((rows, cols))
                    for i in range(length):
                        r, c = (i, i + off) if off >= 0 else (i - off, i)
                        if r < rows and c < cols:
                            want[r, c] = i + 1
                    key = ("diag", length, rows, cols, off, str(dtype))
                    check(rec, sm.sparse_diag(diag, off, rows, cols), want, dtype, "sparse_diag", key)
                    if diag.tolist() != list(range(1, length + 1)):
                        rec.fail("sparse_diag changed its argument", key)
    for vals in itertools.product((0.0, 1.0, -2.0), repeat=3):
        for off in range(-3, 4):
            want = np.zeros((3, 4))
            for i in range(3):
                r, c = (i, i + off) if off >= 0 else (i - off, i)
                if r < 3 and c < 4:
                    want[r, c] = vals[i]
            check(rec, sm.sparse_diag(torch.tensor(vals, dtype=F64), off, 3, 4), want, F64, "sparse_diag", ("diag", vals, off))


# ------------------------------------------------------------ rows
def run_rows(unit, rec):
    nan = float("nan")
    for rows, cols in unit["shapes"]:
        mats = list(matrices(rows, cols)) if rows * cols <= 4 else [
            np.zeros((rows, cols)), np.arange(1.0, rows * cols + 1).reshape(rows, cols),
            (np.arange(rows * cols) % 3 - 1.0).reshape(rows, cols)]
        mats.append(np.full((rows, cols), nan))
        for a in mats:
            for row in matrices(1, cols) if cols <= 3 else [np.zeros((1, cols)), np.arange(1.0, cols + 1)[None]]:
                for k in range(rows):
                    want = a.copy()
                    want[k] = row[0]
                    for dtype, ha, hr in ((F64, "plain", "plain"), (F32, "plain", "plain"), (F64, "explicit zeros", "duplicates"),
                                          (F64, "duplicates", "explicit zeros"), (F64, "reversed", "reversed")):
                        if np.isnan(a).any() and ha != "plain":
                            continue
                        t, r = stored(a, dtype, ha), stored(row, dtype, hr)
                        keep = t.to_dense().clone()
                        key = ("row", a.tolist(), row.tolist(), k, str(dtype), ha, hr)
                        got = sm.sparse_replace_row(t, k, r)
                        if got.dtype != dtype or tuple(got.shape) != (rows, cols):
                            rec.fail(f"sparse_replace_row: {got.dtype} {tuple(got.shape)}", key)
                        if not np.array_equal(to_np(got.to_dense()), want, equal_nan=True):
                            rec.fail(f"sparse_replace_row: {to_np(got.to_dense()).tolist()} instead of {want.tolist()}", key)
                        if not np.array_equal(to_np(keep), to_np(t.to_dense()), equal_nan=True):
                            rec.fail("sparse_replace_row changed its argument", key)
                        rec.case(key)
        good = stored(mats[0], F64, "plain")
        for n in range(1, 5):
            if n != cols:
                raises(rec, lambda: sm.sparse_replace_row(good, 0, torch.ones(1, n, dtype=F64).to_sparse()), f"row of length {n}",
                       ("row length", rows, cols, n))
        for k in (-1, -rows, rows, rows + 1):
            raises(rec, lambda: sm.sparse_replace_row(good, k, torch.ones(1, cols, dtype=F64).to_sparse()), f"row {k} of {rows}",
                   ("row index", rows, cols, k))


# ------------------------------------------------------------ 1d convolution
def conv1(f, n, mode):
    """Dense convolution matrix by scipy."""
    mode = "same" if mode == "sameshift" else mode
    return np.stack([scipy.signal.convolve(e, f, mode=mode, method="direct") for e in np.eye(n)], axis=1)


def run_conv(unit, rec):
    flen = unit["flen"]
    alpha = ALPHA if flen <= 4 else (0.0, 1.5)
    top = 7 if rec.tier == "quick" else 10
    filters = [np.array(v) for v in itertools.product(alpha, repeat=flen)]
    filters.append(np.arange(1.0, flen + 1))
    for n in range(1, top + flen + 1):
        for mode in MODES:
            if mode == "valid" and n < flen:
                raises(rec, lambda: sm.construct_conv_matrix(torch.ones(flen), n, mode=mode), "filter longer than a valid input",
                       ("conv", flen, n), True)
                continue
            for f in filters if n <= top else filters[-1:]:
                want = conv1(f, n, mode)
                for dtype in (F64, F32):
                    t = torch.tensor(f, dtype=dtype)
                    key = ("conv", f.tolist(), n, mode, str(dtype))
                    check(rec, sm.construct_conv_matrix(t, n, mode=mode), want, dtype, f"construct_conv_matrix {mode}", key)
                    for stride in (1, 2, 3, 4):
                        rows = want[(1 if mode == "sameshift" else 0)::stride]
                        got = sm.construct_strided_conv_matrix(t, n, stride, mode=mode)
                        check(rec, got, rows, dtype, f"construct_strided_conv_matrix {mode} {stride}", key + (stride,))
                        if stride == 2:
                            check(rec, sm.construct_strided_conv_matrix(t, n, mode=mode), rows, dtype, "default stride", key + ("d",))
            if mode == "valid":
                t = torch.arange(1.0, flen + 1, dtype=F64)
                check(rec, sm.construct_conv_matrix(t, n), conv1(filters[-1], n, mode), F64, "default mode", ("default", flen, n))
                check(rec, sm.construct_strided_conv_matrix(t, n), conv1(filters[-1], n, mode)[::2], F64, "default mode",
                      ("default strided", flen, n))
    for bad in ("", "Full", "reflect", None, 1):
        raises(rec, lambda: sm.construct_conv_matrix(torch.ones(flen), 8, mode=bad), f"mode {bad!r}", ("mode", flen, str(bad)))
        raises(rec, lambda: sm.construct_strided_conv_matrix(torch.ones(flen), 8, mode=bad), f"mode {bad!r}", ("smode", flen, str(bad)))


# ------------------------------------------------------------ 2d convolution
def conv2(f, h, w, mode):
    """(rows, columns, h*w) responses to all unit images."""
    mode = "same" if mode == "sameshift" else mode
    cols = []
    for j in range(w):
        for i in range(h):
            img = np.zeros((h, w))
            img[i, j] = 1.0
            cols.append(scipy.signal.convolve2d(img, f, mode=mode))
    return np.stack(cols, axis=-1)


def column_major(t):
    """[rows, columns, k] -> [rows*columns, k], the columns one after the other."""
    return t.transpose(1, 0, 2).reshape(-1, t.shape[-1])


def run_conv2(unit, rec):
    fh, fw = unit["filter"]
    top = 4 if rec.tier == "quick" else 5
    full = np.arange(1.0, fh * fw + 1).reshape(fh, fw)
    filters = [full]
    if fh * fw <= 4:
        filters += [m for m in matrices(fh, fw, (0.0, 1.0))]
    else:
        filters += [np.zeros((fh, fw)), np.eye(fh, fw), full * (np.arange(fw) > 0), full * (np.arange(fh) > 0)[:, None],
                    full * (np.arange(fw) % 2), full * -(np.arange(fh) % 2)[:, None]]
    for h, w in itertools.product(range(1, top + 1), repeat=2):
        for mode in MODES:
            if mode == "valid" and (h < fh or w < fw):
                raises(rec, lambda: sm.construct_conv2d_matrix(torch.ones(fh, fw), h, w, mode=mode), "valid input too small",
                       ("conv2", fh, fw, h, w), True)
                continue
            for k, f in enumerate(filters):
                if k > 1 and h != w and h + w > 5:
                    continue
                want = conv2(f, h, w, mode)
                for dtype in (F64, F32) if k < 2 else (F64,):
                    t = torch.tensor(f, dtype=dtype)
                    key = ("conv2", f.tolist(), h, w, mode, str(dtype))
                    for sparse in (True, False):
                        got = sm.construct_conv2d_matrix(t, h, w, mode=mode, fully_sparse=sparse)
                        check(rec, got, column_major(want), dtype, f"construct_conv2d_matrix {mode}", key + (sparse,))
                    for stride in (1, 2, 3):
                        s = 1 if mode == "sameshift" else 0
                        rows = column_major(want[s::stride, s::stride])
                        got = sm.construct_strided_conv2d_matrix(t, h, w, stride, mode=mode)
                        check(rec, got, rows, dtype, f"construct_strided_conv2d_matrix {mode} {stride}", key + (stride,))
    for bad in ("", "Full", "reflect", None, 1):
        raises(rec, lambda: sm.construct_conv2d_matrix(torch.ones(fh, fw), 4, 4, mode=bad), f"mode {bad!r}", ("mode", fh, fw, str(bad)))
        raises(rec, lambda: sm.construct_strided_conv2d_matrix(torch.ones(fh, fw), 4, 4, mode=bad), f"mode {bad!r}",
               ("smode", fh, fw, str(bad)))


# ------------------------------------------------------------ products
def run_mm(unit, rec):
    for m, n, b, k in itertools.product(range(1, 4), range(1, 4), range(1, 4), range(1, 4)):
        for dtype in (F64, F32):
            x = dense((b, n, k), dtype)
            for a in (dense((m, n), F64), torch.eye(m, n, dtype=F64), torch.zeros(m, n, dtype=F64)):
                want = np.einsum("mn,bnk->bmk", to_np(a.to(dtype)).astype(float), to_np(x).astype(float))
                for how in ("dense",) + STORAGE:
                    mat = a.to(dtype) if how == "dense" else stored(to_np(a.to(dtype)).astype(float), dtype, how)
                    for layout in range(3):
                        y = x
                        if layout == 1:
                            y = x.transpose(0, 2).contiguous().transpose(0, 2)
                        if layout == 2:
                            y = torch.stack([x, x + 1], -1)[..., 0]
                        key = ("mm", m, n, b, k, str(dtype), how, layout, float(a.sum()))
                        check(rec, sm.batch_mm(mat, y), want, dtype, "batch_mm", key)
            for bad in range(1, 5):
                if bad != n:
                    raises(rec, lambda: sm.batch_mm(torch.ones(m, bad, dtype=dtype), x), f"inner sizes {bad} and {n}",
                           ("mm", m, n, b, k, bad, str(dtype)))


# ------------------------------------------------------------ sizes and values beyond the reach of dense matrices
def entries(t):
    """Nonzero entries by index, of any sparse layout."""
    t = (t if t.layout == torch.sparse_coo else t.to_sparse_coo()).coalesce()
    return {(i, j): v for (i, j), v in zip(t.indices().T.tolist(), t.values().tolist()) if v != 0}


def check_entries(rec, got, shape, want, dtype, what, key):
    if got.dtype != dtype or tuple(got.shape) != tuple(shape):
        rec.fail(f"{what}: {got.dtype} {tuple(got.shape)} instead of {dtype} {tuple(shape)}", key)
    have = entries(got)
    want = {p: v for p, v in want.items() if v != 0}
    if set(have) != set(want):
        odd = sorted(set(have) ^ set(want))[0]
        rec.fail(f"{what}: entry {odd} is {have.get(odd, 0.0)} instead of {want.get(odd, 0.0)}", key)
    for p, v in want.items():
        if abs(have[p] - v) > abs(v) * (1e-13 if dtype == F64 else 1e-6):
            rec.fail(f"{what}: entry {p} is {have[p]} instead of {v}", key)
    rec.case(key)


def coo(shape, ent, dtype):
    pos = sorted(ent)
    return torch.sparse_coo_tensor(torch.tensor(pos, dtype=torch.long).reshape(-1, 2).T, torch.tensor([ent[p] for p in pos], dtype=dtype),
                                   size=shape)


VALUES = (2.0 ** 60, 2.0 ** -60, -1.0, 3.0)
BIG = (3, 257, 4099, 65537, 16777259)


def run_huge_kron(unit, rec):
    def corner(shape):
        r, c = shape
        pos = {(0, 0), (r - 1, c - 1), (r // 2, c - 1), (r - 1, c // 3), (r // 3, 0)}
        return {p: VALUES[k % 4] for k, p in enumerate(sorted(pos))}

    for ra, ca, rb, cb in itertools.product(BIG, repeat=4):
        if ra * rb >= 2 ** 46 or ca * cb >= 2 ** 46 or ra * rb * ca * cb >= 2 ** 62:
            continue
        ea, eb = corner((ra, ca)), corner((rb, cb))
        for dtype in (F64, F32):
            got = sm.sparse_kron(coo((ra, ca), ea, dtype), coo((rb, cb), eb, dtype))
            want = {(i * rb + k, j * cb + l): v * w for (i, j), v in ea.items() for (k, l), w in eb.items()}
            check_entries(rec, got, (ra * rb, ca * cb), want, dtype, "sparse_kron", ("huge kron", ra, ca, rb, cb, str(dtype)))


def run_huge_rest(unit, rec):
    for rows, cols in itertools.product(BIG, repeat=2):
        for off in sorted({0, 1, -1, cols - 3, 3 - rows, cols, -rows, cols // 2, -(rows // 2), -(2 ** 24) - 1, 2 ** 24 + 1}):
            for dtype in (F64, F32):
                d = torch.tensor(VALUES, dtype=dtype)
                want = {}
                for k, v in enumerate(VALUES):
                    r, c = (k, k + off) if off >= 0 else (k - off, k)
                    if r < rows and c < cols:
                        want[r, c] = v
                check_entries(rec, sm.sparse_diag(d, off, rows, cols), (rows, cols), want, dtype, "sparse_diag", ("huge diag", rows, cols, off, str(dtype)))
        ent = {(0, 0): 1.0, (rows - 1, cols - 1): 2.0 ** 60, (rows - 2, 0): 2.0 ** -60, (rows - 2, cols - 1): 5.0, (rows // 2, cols // 2): -3.0}
        row = {(0, 0): 7.0, (0, cols - 1): 2.0 ** -50, (0, cols // 2): 2.0 ** 50}
        for k in sorted({0, 1, rows // 2, rows - 2, rows - 1}):
            for dtype in (F64, F32):
                want = {p: v for p, v in ent.items() if p[0] != k}
                want.update({(k, j): v for (_, j), v in row.items()})
                got = sm.sparse_replace_row(coo((rows, cols), ent, dtype), k, coo((1, cols), row, dtype))
                check_entries(rec, got, (rows, cols), want, dtype, "sparse_replace_row", ("huge row", rows, cols, k, str(dtype)))
    for n in (3, 257, 4099, 65537):
        ent = {(0, n - 1): 2.0 ** 60, (n - 1, 0): 2.0 ** -60, (n // 2, n // 2): 3.0}
        for extra in (0, 1, 2, 255, 70001):
            for dtype in (F64, F32):
                want = {**ent, **{(k, k): 1.0 for k in range(n, n + extra)}}
                check_entries(rec, sm.cat_sparse_identity_matrix(coo((n, n), ent, dtype), n + extra), (n + extra,) * 2, want, dtype,
                              "cat_sparse_identity_matrix", ("huge eye", n, extra, str(dtype)))


def run_long_conv(unit, rec):
    n, flen = unit["n"], unit["flen"]
    for dtype in (F64, F32):
        f = [VALUES[k % 4] + (k if k % 4 == 3 else 0) for k in range(flen)]
        t = torch.tensor(f, dtype=dtype)
        for mode in MODES:
            if mode == "valid" and n < flen:
                continue
            start, stop = {"full": (0, n + flen - 1), "valid": (flen - 1, n)}.get(mode, ((flen - 1) // 2, (flen - 1) // 2 + n))
            want = {}
            for j in range(n):
                for k in range(flen):
                    if start <= j + k < stop:
                        want[j + k - start, j] = f[k]
            key = ("long conv", n, flen, mode, str(dtype))
            check_entries(rec, sm.construct_conv_matrix(t, n, mode=mode), (stop - start, n), want, dtype, f"construct_conv_matrix {mode}", key)
            for stride in (2, 5):
                first = 1 if mode == "sameshift" else 0
                rows = len(range(first, stop - start, stride))
                sub = {((i - first) // stride, j): v for (i, j), v in want.items() if i >= first and (i - first) % stride == 0}
                check_entries(rec, sm.construct_strided_conv_matrix(t, n, stride, mode=mode), (rows, n), sub, dtype,
                              f"construct_strided_conv_matrix {mode} {stride}", key + (stride,))


def run_long_conv2(unit, rec):
    h, w = unit["size"]
    fh, fw = 3, 2
    f = [[VALUES[(i * fw + j) % 4] + i for j in range(fw)] for i in range(fh)]
    dtype = F64
    t = torch.tensor(f, dtype=dtype)
    span = lambda n, m, mode: {"full": (0, n + m - 1), "valid": (m - 1, n)}.get(mode, ((m - 1) // 2, (m - 1) // 2 + n))
    for mode in MODES:
        (r0, r1), (c0, c1) = span(h, fh, mode), span(w, fw, mode)
        rows, cols = r1 - r0, c1 - c0
        for stride in (0, 2, 3):
            first = 1 if mode == "sameshift" and stride else 0
            s = stride or 1
            nr = len(range(first, rows, s))
            nc = len(range(first, cols, s))
            want = {}
            for i, j, k, l in itertools.product(range(h), range(w), range(fh), range(fw)):
                r, c = i + k - r0, j + l - c0
                if first <= r < rows and first <= c < cols and (r - first) % s == 0 and (c - first) % s == 0:
                    want[(c - first) // s * nr + (r - first) // s, j * h + i] = f[k][l]
            key = ("long conv2", h, w, mode, stride)
            if stride:
                got = sm.construct_strided_conv2d_matrix(t, h, w, stride, mode=mode)
            else:
                got = sm.construct_conv2d_matrix(t, h, w, mode=mode)
            check_entries(rec, got, (nr * nc, h * w), want, dtype, f"conv2d matrix {mode} stride {stride}", key)


def run_long_mm(unit, rec):
    for m, n, b, k in ((1, 70001, 1, 1), (70001, 1, 1, 2), (3, 5, 4099, 3), (5, 3, 2, 70001), (257, 300, 3, 5), (2, 2, 70001, 1)):
        for dtype in (F64, F32):
            x = dense((b, n, k), dtype)
            ent = {(i, j): float((i * 7 + j * 3) % 11 - 5) for i in sorted({0, m // 2, m - 1}) for j in sorted({0, n // 3, n - 1})}
            mat = coo((m, n), ent, dtype)
            want = np.zeros((b, m, k))
            for (i, j), v in ent.items():
                want[:, i] += v * to_np(x)[:, j].astype(float)
            check(rec, sm.batch_mm(mat, x), want, dtype, "batch_mm", ("long mm", m, n, b, k, str(dtype)))
            if m * n < 10 ** 6:
                check(rec, sm.batch_mm(mat.to_dense(), x), want, dtype, "batch_mm", ("long mm dense", m, n, b, k, str(dtype)))


def units(tier, seed):
    small = [s for s in itertools.product(range(1, 3), repeat=2)]
    wide = [(1, 3), (3, 1)]
    res = []
    for sa in small + wide:
        for sb in small + wide:
            if sa[0] * sa[1] + sb[0] * sb[1] <= (6 if tier == "quick" else 8):
                res.append(dict(kind="kron", shapes=[[list(sa), list(sb)]]))
    res += [dict(kind="kron_storage"), dict(kind="eye"), dict(kind="diag"), dict(kind="mm")]
    for s in itertools.product(range(1, 4), repeat=2):
        res.append(dict(kind="rows", shapes=[list(s)]))
    res.append(dict(kind="rows", shapes=[[2, 4], [4, 2], [5, 4], [4, 5]]))
    for f in range(1, 6 if tier == "quick" else 8):
        res.append(dict(kind="conv", flen=f))
    for f in itertools.product(range(1, 4), repeat=2):
        res.append(dict(kind="conv2", filter=list(f)))
    res += [dict(kind="huge_kron"), dict(kind="huge_rest"), dict(kind="long_mm")]
    res += [dict(kind="long_conv", n=n, flen=f) for n, f in ((130, 129), (1025, 20), (4097, 3), (33000, 2), (20, 300))]
    res += [dict(kind="long_conv2", size=list(s)) for s in ((70, 80), (3, 600), (600, 2), (33, 150))]
    if tier != "quick":
        res += [dict(kind="long_conv", n=n, flen=f) for n, f in ((2049, 64), (70001, 4), (300, 300), (64, 1000))]
        res += [dict(kind="long_conv2", size=list(s)) for s in ((150, 170), (2, 9000), (9000, 1))]
        res += [dict(kind="conv2", filter=[a, b]) for a, b in ((1, 4), (4, 1), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (2, 5), (5, 2))]
    return res


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
