"""C11: a wavelet packet tree is a lazily filled map of its root."""
import itertools

import torch

import ptwt

from .. import ref
from ..core import HarnessError
from ..util import F32, F64, dense, same, to_np

LEVEL = "model_checking"
FRESH = True
RULE = (
    "states: distinct contents of the tree (maximum level, keys, values) of the specification; "
    "transitions: operations performed on the real object and the specification side by side "
    "from every history up to the depth (unit 'history': all histories; unit 'graph': one "
    "history per state of the specification, deeper); after each transition the result or "
    "exception, the key set and all stored values are compared"
)
ASSUMPTIONS = [
    "a one-level tree returns the right children and its reconstruct() the right parent (decided by C12)",
]

# ------------------------------------------------------------------ models


def data_of(cfg, name):
    nd = cfg["ndim"]
    n = cfg["n"]
    base = {"x": ((n,) * nd, F64, 1), "y": ((n,) * nd, F64, 2), "odd": ((n - 1,) + (n,) * (nd - 1), F64, 3),
            "batch": ((2,) + (n,) * nd, F64, 4), "f32": ((n,) * nd, F32, 5), "long": ((2 * n,) * nd, F64, 6)}
    shape, dt, kind = base[name]
    x = dense(shape, dt, kind)
    if cfg.get("axes"):
        ax = cfg["axes"]
        # the transformed axes come first
        x = torch.movedim(x, tuple(range(-nd, 0)), tuple(ax)) if x.ndim > nd else x
        if x.ndim == nd:
            x = torch.movedim(x[None], tuple(range(-nd, 0)), tuple(ax))
    return x


def make(cfg, data, maxlevel):
    cls = ptwt.WaveletPacket if cfg["ndim"] == 1 else ptwt.WaveletPacket2D
    kw = {}
    if cfg.get("axes"):
        kw = {"axis": cfg["axes"][0]} if cfg["ndim"] == 1 else {"axes": tuple(cfg["axes"])}
    if cfg.get("sep"):
        kw["separable"] = True
    if cfg.get("orth"):
        kw["orthogonalization"] = cfg["orth"]
    return cls(data, cfg["wavelet"], mode=cfg["mode"], maxlevel=maxlevel, **kw)


class Model:
    """Eager specification of the tree."""

    memo = {}

    def __init__(self, cfg, data, maxlevel):
        self.cfg = cfg
        self.letters = "ad" if cfg["ndim"] == 1 else "ahvd"
        self.data = {}
        self.maxlevel = None
        if data is not None:
            self.transform(data, maxlevel)

    def transform(self, data, maxlevel):
        self.data = {"": data}
        if maxlevel is None:
            nd = self.cfg["ndim"]
            axes = self.cfg.get("axes") or range(-nd, 0)
            maxlevel = ref.max_level(min(data.shape[a] for a in axes), ref.flen(self.cfg["wavelet"]))
        self.maxlevel = maxlevel

    # one level, by a new object
    def children(self, x):
        key = ("dec", str(self.cfg), tuple(x.shape), x.dtype, to_np(x).tobytes())
        if key not in self.memo:
            t = make(self.cfg, x, 1)
            self.memo[key] = [t[c] for c in self.letters]
        return self.memo[key]

    def parent(self, parts):
        key = ("rec", str(self.cfg)) + tuple((tuple(x.shape), x.dtype, to_np(x).tobytes()) for x in parts)
        if key not in self.memo:
            t = make(self.cfg, parts[0], 1)
            for c, p in zip(self.letters, parts):
                t[c] = p
            t.reconstruct()
            self.memo[key] = t[""]
        return self.memo[key]

    # operations: ("ok", value) or ("raise", allowed types)
    def read(self, key):
        if self.maxlevel is None:
            return "raise", ("ValueError",)
        if key in self.data:
            return "ok", self.data[key]
        bad = any(c not in self.letters for c in key)
        deep = len(key) > self.maxlevel
        if deep:
            return "raise", ("KeyError", "ValueError") if bad else ("KeyError",)
        if key == "":
            return "raise", ("ValueError",)
        if key[-1] not in self.letters:
            return "raise", ("ValueError",)
        up = self.read(key[:-1])
        if up[0] == "raise":
            return up
        for c, v in zip(self.letters, self.children(up[1])):
            self.data[key[:-1] + c] = v
        return "ok", self.data[key]

    def do(self, op):
        kind = op[0]
        if kind == "read":
            return self.read(op[1])
        if kind == "set":
            self.data[op[1]] = op[2]
            return "ok", None
        if kind == "del":
            if op[1] not in self.data:
                return "raise", ("KeyError",)
            del self.data[op[1]]
            return "ok", None
        if kind == "in":
            return "ok", op[1] in self.data
        if kind == "list":
            return "ok", sorted(self.data)
        if kind == "init":
            for k in op[1]:
                res = self.read(k)
                if res[0] == "raise":
                    return res
            return "ok", None
        if kind == "transform":
            self.transform(op[1], op[2])
            return "ok", None
        if kind == "reconstruct":
            if self.maxlevel is None:
                return "raise", ("ValueError",)
            leaves = ref.product_paths(self.maxlevel, self.letters)
            if any(k not in self.data for k in leaves):
                return "raise", ("KeyError",)
            for lev in range(1, self.maxlevel):
                for k in ref.product_paths(lev, self.letters):
                    res = self.read(k)
                    if res[0] == "raise":
                        return "undefined", None
            for lev in reversed(range(self.maxlevel)):
                for k in ref.product_paths(lev, self.letters):
                    rec = self.parent([self.data[k + c] for c in self.letters])
                    if lev > 0:
                        old = self.data[k].shape
                        if any(a not in (b, b + 1) for a, b in zip(rec.shape, old)):
                            return "undefined", None
                        rec = rec[tuple(slice(0, s) for s in old)]
                    self.data[k] = rec
            return "ok", None
        raise HarnessError(kind)

    def key(self):
        return (self.maxlevel,) + tuple(
            (k, tuple(v.shape), str(v.dtype), hash(to_np(v).tobytes())) for k, v in sorted(self.data.items()))


def real_do(wp, op):
    kind = op[0]
    try:
        if kind == "read":
            return "ok", wp[op[1]]
        if kind == "set":
            wp[op[1]] = op[2]
            return "ok", None
        if kind == "del":
            del wp[op[1]]
            return "ok", None
        if kind == "in":
            return "ok", op[1] in wp
        if kind == "list":
            keys = sorted(wp)
            if not (keys == sorted(wp.keys()) and len(keys) == len(wp)):
                return "ok", "inconsistent"
            if wp.maxlevel is not None:
                if not (keys == sorted(k for k, _ in wp.items()) and len(keys) == len(list(wp.values()))):
                    return "ok", "inconsistent"
            return "ok", keys
        if kind == "init":
            return "ok", wp.initialize(op[1])
        if kind == "transform":
            got = wp.transform(op[1], op[2])
            return "ok", None if got is wp else "not the object"
        if kind == "reconstruct":
            got = wp.reconstruct()
            return "ok", None if got is wp else "not the object"
    except Exception as exc:  # noqa: B902
        return "raise", type(exc).__name__
    raise HarnessError(kind)


def compare(rec, wp, model, got, want, key):
    rec.check(got[0] == want[0], lambda: f"{got if got[0] == 'raise' else 'an answer'} instead of "
              f"{want if want[0] == 'raise' else 'an answer'}", key)
    if got[0] == "raise":
        rec.check(got[1] in want[1], lambda: f"raises {got[1]} instead of {want[1]}", key)
    elif isinstance(want[1], torch.Tensor):
        rec.check(isinstance(got[1], torch.Tensor), "no tensor was read", key)
        same(rec, got[1], want[1], "value read", key)
    else:
        rec.check(got[1] == want[1], lambda: f"{got[1]} instead of {want[1]}", key)
    names = list(wp)
    rec.check(set(names) == set(model.data), lambda: f"stored nodes {sorted(names)} instead of {sorted(model.data)}", key)
    # nodes that were set before the first transform cannot be read yet
    stored = {} if model.maxlevel is None else {k: wp[k] for k in names}
    for k, v in stored.items():
        w = model.data[k]
        if v is not w:
            same(rec, v, w, f"stored node '{k}'", key)
    rec.check(wp.maxlevel == model.maxlevel, lambda: f"maxlevel {wp.maxlevel} instead of {model.maxlevel}", key)


# -------------------------------------------------------------- alphabets
def node_like(cfg, path, kind):
    """A replacement for a node of the tree of 'x' (shape of that node)."""
    m = Model(cfg, data_of(cfg, "x"), 3)
    res = m.read(path)
    return dense(tuple(res[1].shape), F64, kind)


def alphabet(cfg, full=True):
    ml = cfg["maxlevel"] or 2
    if cfg["ndim"] == 1:
        reads = ["", "a", "d", "aa", "da", "ad", "dd", "aaa", "dad", "x", "xa", "ax"]
        sets = ["", "a", "d", "aa", "dd"]
        dels = ["", "a", "d", "aa", "dd"]
        inits = [["aa", "d"], ["d", "x", "aa"], []]
    else:
        reads = ["", "a", "h", "vd", "dv", "aa", "aaa", "x", "xa", "ax"]
        sets = ["", "h", "aa", "dv"]
        dels = ["", "v", "aa", "dv"]
        inits = [["hv", "d"], ["v", "x", "aa"]]
    ops = [("read", k) for k in reads]
    ops += [("set", k, node_like(cfg, k, 20 + i)) for i, k in enumerate(sets)]
    ops += [("del", k) for k in dels]
    ops += [("in", k) for k in ("", reads[1], "aa", "x")]
    ops.append(("list",))
    letters = "ad" if cfg["ndim"] == 1 else "ahvd"
    ops += [("init", k) for k in inits]
    ops.append(("init", ref.product_paths(ml, letters)))
    tl = [("y", ml), ("x", 1), ("odd", None), ("batch", ml), ("f32", ml), ("long", ml), ("y", 0)]
    ops += [("transform", data_of(cfg, n), lev) for n, lev in tl]
    ops.append(("reconstruct",))
    names = []
    for op in ops:
        names.append(" ".join(str(tuple(v.shape)) + str(v.dtype) if isinstance(v, torch.Tensor) else str(v) for v in op))
    if not full:
        keep = {"read", "set", "del", "init", "transform", "reconstruct"}
        few = {"read": 7, "set": 4, "del": 4, "init": 4, "transform": 3, "reconstruct": 1}
        res, cnt = [], {}
        for n, op in zip(names, ops):
            if op[0] in keep and cnt.get(op[0], 0) < few[op[0]]:
                if op[0] == "init" and op[1] in inits:
                    continue
                cnt[op[0]] = cnt.get(op[0], 0) + 1
                res.append((n, op))
        return res
    return list(zip(names, ops))


MAX_OPS = 44


def configs(tier):
    res = []
    for w, mode, ml in (("haar", "zero", 2), ("haar", "reflect", 3), ("db2", "symmetric", 2), ("db2", "periodic", 2),
                        ("haar", "boundary", 2), ("haar", "boundary", None), ("db2", "boundary", 2),
                        ("db2", "constant", None)):
        res.append(dict(ndim=1, wavelet=w, mode=mode, maxlevel=ml, n=16 if w == "db2" else 8))
    res.append(dict(ndim=1, wavelet="haar", mode="zero", maxlevel=2, n=8, axes=[0]))
    res.append(dict(ndim=1, wavelet="haar", mode="boundary", maxlevel=2, n=8, axes=[0], orth="gramschmidt"))
    for mode in ("zero", "boundary"):
        for sep in (False, True):
            res.append(dict(ndim=2, wavelet="haar", mode=mode, maxlevel=2, n=8 if mode == "boundary" else 4, sep=sep))
    res.append(dict(ndim=2, wavelet="db2", mode="symmetric", maxlevel=2, n=8, sep=False))
    res.append(dict(ndim=2, wavelet="haar", mode="reflect", maxlevel=2, n=6, sep=False, axes=[0, 1]))
    return res


def units(tier, seed):
    res = []
    for cfg in configs(tier):
        for start in ("x", None):
            for first in range(MAX_OPS):
                depth = 3 if tier == "quick" else 4 if cfg["ndim"] == 1 else 3
                if start is None:
                    depth -= 1
                if tier == "quick" and (cfg.get("orth", "qr") != "qr" or cfg["maxlevel"] != 2
                                        or cfg["mode"] == "periodic" or cfg["mode"] == "boundary" and cfg["wavelet"] == "db2"):
                    depth -= 1
                if cfg["ndim"] == 2 and cfg["mode"] == "boundary" and tier == "quick":
                    depth = 2 + (cfg["sep"] and start is not None)
                res.append(dict(kind="history", cfg=cfg, start=start, first=first, depth=depth))
        for first in range(24):
            depth = (4 if tier == "quick" else 6) - (cfg["ndim"] == 2)
            if tier == "quick" and cfg["ndim"] == 1 and cfg["mode"] in ("zero", "symmetric") and "axes" not in cfg:
                depth += 1
            res.append(dict(kind="graph", cfg=cfg, first=first, depth=depth))
    return res


def cost(unit):
    c = 10 if unit["kind"] == "graph" else 3 if unit["start"] else 1
    return c * (3 if unit["cfg"]["ndim"] == 2 else 1) * (3 if unit["cfg"]["mode"] == "boundary" else 1)


def begin(cfg, start):
    data = None if start is None else data_of(cfg, start)
    return make(cfg, data, cfg["maxlevel"]), Model(cfg, data, cfg["maxlevel"])


def label(cfg):
    return tuple(f"{k}={v}" for k, v in cfg.items())


def run_history(unit, rec):
    cfg = unit["cfg"]
    ops = alphabet(cfg)
    if len(ops) > MAX_OPS:
        raise HarnessError("alphabet too large")
    if unit["first"] >= len(ops):
        return
    for d in range(1, unit["depth"] + 1):
        for rest in itertools.product(range(len(ops)), repeat=d - 1):
            seq = (unit["first"],) + rest
            wp, model = begin(cfg, unit["start"])
            key = label(cfg) + (unit["start"], tuple(ops[i][0] for i in seq))
            for pos, i in enumerate(seq):
                want = model.do(ops[i][1])
                if want[0] == "undefined":
                    break
                got = real_do(wp, ops[i][1])
                rec.transitions += 1
                if pos == len(seq) - 1:
                    compare(rec, wp, model, got, want, key)
                    rec.case(key)
                    rec.state((label(cfg), model.key()))
            rec.traces += 1


def run_graph(unit, rec):
    """Breadth-first over the states of the specification."""
    cfg = unit["cfg"]
    ops = alphabet(cfg, full=False)
    if unit["first"] >= len(ops):
        return
    seen = set()
    level = [(unit["first"],)]
    for depth in range(unit["depth"]):
        nxt = []
        for seq in level:
            wp, model = begin(cfg, "x")
            key = label(cfg) + ("graph", tuple(ops[i][0] for i in seq))
            for pos, i in enumerate(seq):
                want = model.do(ops[i][1])
                if want[0] == "undefined":
                    break
                got = real_do(wp, ops[i][1])
                rec.transitions += 1
                if pos == len(seq) - 1:
                    compare(rec, wp, model, got, want, key)
                    rec.case(key)
            rec.traces += 1
            if want[0] == "undefined":
                continue
            st = model.key()
            rec.state((label(cfg), st))
            if st in seen:
                continue
            seen.add(st)
            nxt += [seq + (i,) for i in range(len(ops))]
        level = nxt
        if depth + 1 < unit["depth"] and len(level) > (6000 if rec.tier == "quick" else 60000):
            rec.count("graphs_cut_at_depth_%d" % (depth + 1))
            break


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)

