"""C24: copied, pickled and restored objects go on like their original, on their own."""
import copy
import io
import itertools
import pickle
import warnings

import pywt
import torch

import ptwt
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from ..ops import OPS
from ..util import F32, F64, dense, leaves, same, tmap

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking of the real objects: all histories of operations, a copy by every means, and all "
             "continuations on the original and the copy, against a replay of each object's own history without copying")
RULE = (
    "states: distinct (configuration, history before the copy, way of copying); transitions: operations on the original or "
    "the copy; traces: histories prefix - copy - continuation, all of them up to the depths; every result, exception and the "
    "final contents of both objects are compared with a replay of that object's own operations on an uncopied object"
)
ASSUMPTIONS = ["uncopied objects behave as decided by C10, C11 and C19"]
FRESH = True


def saved(obj):
    buf = io.BytesIO()
    torch.save(obj, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


COPIES = {
    "deepcopy": copy.deepcopy,
    "pickle": lambda o: pickle.loads(pickle.dumps(o)),
    "save": saved,
    "twice": lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o))),
}


def outcome(fn, *args):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn(*args)
    except Exception as exc:  # noqa: B902
        return ("raise", type(exc).__name__)
    return ("ok", tmap(lambda t: t.detach().to_dense().clone() if t.layout is torch.sparse_coo else t.detach().clone(), res))


# ---------------------------------------------------------------- machines
class Machine:
    copies = COPIES

    def __init__(self, cfg):
        self.cfg = cfg

    def new(self):
        raise NotImplementedError

    def ops(self):
        """name -> function of the object."""
        raise NotImplementedError

    def observe(self, obj):
        raise NotImplementedError


DECS = {1: ptwt.MatrixWavedec, 2: ptwt.MatrixWavedec2, 3: ptwt.MatrixWavedec3}
RECS = {1: ptwt.MatrixWaverec, 2: ptwt.MatrixWaverec2, 3: ptwt.MatrixWaverec3}
SHAPES = {1: [(2, 16), (2, 12), (2, 9)], 2: [(1, 8, 8), (1, 6, 8), (1, 8, 7)], 3: [(1, 8, 8, 8), (1, 6, 8, 4), (1, 4, 7, 8)]}


class MatrixMachine(Machine):
    def wavelet(self):
        w = self.cfg["wavelet"]
        if self.cfg["rep"] == "name":
            return w
        if self.cfg["rep"] == "object":
            return pywt.Wavelet(w)
        return ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(w), F64)

    def new(self):
        c = self.cfg
        kw = dict(orthogonalization=c["orth"])
        if c["nd"] == 2:
            kw["separable"] = c["sep"]
        if c["axes"]:
            kw["axis" if c["nd"] == 1 else "axes"] = c["axes"][0] if c["nd"] == 1 else tuple(c["axes"])
        if c["what"] == "dec":
            return DECS[c["nd"]](self.wavelet(), c["level"], odd_coeff_padding_mode=c["mode"], **kw)
        return RECS[c["nd"]](self.wavelet(), **kw)

    def inputs(self):
        c = self.cfg
        xs = [dense(s, F64, i) for i, s in enumerate(SHAPES[c["nd"]])] + [dense(SHAPES[c["nd"]][0], F32, 7)]
        if c["what"] == "dec":
            return xs
        dec = MatrixMachine(dict(c, what="dec", level=1, mode="zero"))
        return [tmap(lambda t: t.clone(), dec.new()(x)) for x in xs[:2] + xs[3:]]

    def ops(self):
        res = {f"call{i}": (lambda o, x=x: o(x)) for i, x in enumerate(self.inputs())}
        if self.cfg["nd"] < 3:
            res["operator"] = lambda o: o.sparse_fwt_operator if self.cfg["what"] == "dec" else o.sparse_ifwt_operator
        return res

    def observe(self, obj):
        first = self.inputs()[0]
        return [outcome(self.ops().get("operator", lambda o: []), obj), outcome(obj, first), ("padded", bool(obj.padded))]


class TreeMachine(Machine):
    copies = dict(COPIES, method=lambda o: o.copy(), copy=copy.copy)

    def data(self, kind=0, dtype=F64, odd=False):
        n = self.cfg["n"] - odd
        return dense((2,) + (n,) * self.cfg["nd"], dtype, kind)

    def new(self):
        c = self.cfg
        cls = ptwt.WaveletPacket if c["nd"] == 1 else ptwt.WaveletPacket2D
        kw = dict(separable=c["sep"]) if c["nd"] == 2 else {}
        wavelet = pywt.Wavelet(c["wavelet"]) if c["rep"] == "object" else c["wavelet"]
        return cls(self.data() if c["filled"] else None, wavelet, mode=c["mode"], maxlevel=c["level"], orthogonalization=c["orth"], **kw)

    def ops(self):
        a, d = "a", "d"
        leaf = d * (self.cfg["level"] or 1)

        def write(obj):
            obj[a] = dense(tuple(obj[a].shape), F64, 9)
            return []

        def remove(obj):
            del obj[a]
            return []

        def full(obj):
            obj.initialize(obj.get_level(obj.maxlevel, "natural"))
            return obj.reconstruct()[""]

        return {
            "read": lambda o: o[leaf],
            "write": write,
            "delete": remove,
            "reconstruct": full,
            "transform": lambda o: o.transform(self.data(3, odd=True), self.cfg["level"])[a],
        }

    def observe(self, obj):
        stored = {k: v.detach().clone() for k, v in dict.items(obj.data)}
        return [("ok", stored), ("maxlevel", obj.maxlevel)]


class WaveletMachine(Machine):
    """Learnable wavelets, also restored from their state."""

    def new(self):
        c = self.cfg
        dt = F64 if c["dt"] == "f64" else F32
        cls = dict(product=ProductFilter, soft=SoftOrthogonalWavelet)[c["cls"]]
        return cls(*[torch.tensor(f, dtype=dt) for f in pywt.Wavelet(c["wavelet"]).filter_bank])

    @property
    def copies(self):
        def restored(obj):
            new = self.new().to(next(obj.parameters()).dtype)
            new.load_state_dict(pickle.loads(pickle.dumps(obj.state_dict())))
            return new

        return dict(COPIES, state=restored)

    def ops(self):
        def transform(o):
            dt = next(o.parameters()).dtype
            return ptwt.wavedec(dense((2, 16), dt, 1), o, mode="zero", level=2)

        def step(o):
            """One step of gradient descent on loss and sparsity."""
            opt = torch.optim.SGD(o.parameters(), lr=0.05)
            opt.zero_grad()
            dt = next(o.parameters()).dtype
            c = ptwt.wavedec(dense((16,), dt, 2), o, mode="zero", level=1)
            loss = o.wavelet_loss() + sum((v * v).sum() for v in c)
            loss.backward()
            opt.step()
            return [loss]

        def update(o):
            with torch.no_grad():
                o.dec_lo.mul_(1.25)
                o.rec_hi[..., 0] += 0.5
            return []

        def losses(o):
            res = [o.wavelet_loss(), o.product_filter_loss(), o.alias_cancellation_loss()[0], o.perfect_reconstruction_loss()[0]]
            if isinstance(o, SoftOrthogonalWavelet):
                res += [o.rec_lo_orthogonality_loss(), o.filt_bank_orthogonality_loss()]
            return res

        return {"transform": transform, "step": step, "update": update, "losses": losses, "double": lambda o: list(o.double().filter_bank),
                "packet": lambda o: ptwt.WaveletPacket(dense((16,), next(o.parameters()).dtype, 1), o, mode="zero", maxlevel=2)["ad"]}

    def observe(self, obj):
        names = [n for n, _ in obj.named_parameters()]
        params = [p.detach().clone() for _, p in obj.named_parameters()]
        flags = [bool(p.requires_grad) for p in obj.parameters()]
        return [("names", names, flags, len(obj)), ("ok", params), outcome(lambda: list(obj.filter_bank))]


MACHINES = {"matrix": MatrixMachine, "tree": TreeMachine, "wavelet": WaveletMachine}


# ----------------------------------------------------------------- compare
def compare(rec, got, want, what, key):
    if got[0] != "ok" or want[0] != "ok":
        rec.check(got == want if got[0] != "ok" and want[0] != "ok" else False,
                  lambda: f"{what}: {str(got)[:200]} instead of {str(want)[:200]}", key)
        return
    same(rec, got[1], want[1], what, key)


def run_machine(unit, rec):
    m = MACHINES[unit["machine"]](unit["cfg"])
    ops = m.ops()
    names = list(ops)
    memo = {}

    def replay(history):
        """Results and final contents of an uncopied object."""
        if history not in memo:
            obj = m.new()
            res = [outcome(ops[n], obj) for n in history]
            memo[history] = (res, m.observe(obj))
        return memo[history]

    depth, more = unit["depth"]
    for k in range(depth + 1):
        for prefix in itertools.product(names, repeat=k):
            for how, copier in m.copies.items():
                if how != unit["how"]:
                    continue
                rec.state((str(unit["cfg"]), prefix, how))
                # equal continuations of both objects are part of the product
                rest = min(more, unit["total"] - k)
                for suffix in itertools.product(itertools.product(("original", "copy"), names), repeat=rest):
                    key = (str(unit["cfg"]), prefix, how, suffix)
                    first = m.new()
                    for n in prefix:
                        outcome(ops[n], first)
                    objs = {"original": first, "copy": copier(first)}
                    rec.check(type(objs["copy"]) is type(first) and objs["copy"] is not first, "no copy", key)
                    own = {"original": prefix, "copy": prefix}
                    for who, n in suffix:
                        own[who] += (n,)
                        got = outcome(ops[n], objs[who])
                        rec.transitions += 1
                        compare(rec, got, replay(own[who])[0][-1], f"{n} on the {who}", key)
                    rec.traces += 1
                    rec.case(key)
                    for who in objs:
                        for g, w in zip(m.observe(objs[who]), replay(own[who])[1]):
                            compare(rec, g, w, f"contents of the {who}", key)


# ------------------------------------------------------------ coefficients
def run_coeffs(unit, rec):
    """Coefficients that were copied or stored go back to the same signal."""
    op = OPS[unit["op"]]
    nd = op.ndim
    for w in ("haar", "db2") if rec.tier != "quick" or not op.name.endswith("nsgs") else ("haar",):
        for shape in [(2,) + (8,) * nd, (2,) + (12,) * (nd - 1) + (8,)]:
            for mode in op.modes:
                for level in (1, 2):
                    for dt in (F64, F32):
                        x = dense(shape, dt, 1)
                        c = op.fwd(x, w, mode, level)
                        for how, copier in dict(COPIES, copy=copy.copy).items():
                            key = (op.name, w, shape, mode, level, str(dt), how)
                            rec.case(key)
                            rec.traces += 1
                            rec.state(key)
                            rec.transitions += 2
                            new = copier(c)
                            rec.check(type(new) is type(c), "type of the coefficients", key)
                            same(rec, new, c, "coefficients", key)
                            if not op.has_inverse:
                                continue
                            want = op.inv(c, w, mode)
                            same(rec, op.inv(new, w, mode), want, "reconstruction", key)
                            if how != "copy":
                                for _, t in leaves(new):
                                    t.zero_()
                                same(rec, op.inv(c, w, mode), want, "original after a change of the copy", key)


def configs(tier):
    res = []
    deep = tier != "quick"
    base = dict(rep="name", orth="qr", sep=True, axes=None, mode="zero")
    for nd in (1, 2, 3):
        for w in ("haar", "db2"):
            if nd == 3 and w == "db2" and not deep:
                continue
            for what in ("dec", "rec"):
                for level in (None, 1, 2) if what == "dec" else (1,):
                    c = dict(base, nd=nd, wavelet=w, what=what, level=level)
                    res.append(("matrix", c, (2, 2) if nd == 1 else (1, 2)))
    for what in ("dec", "rec"):
        for level in (None, 2) if what == "dec" else (1,):
            c = dict(base, nd=1, wavelet="db2", what=what, level=level)
            res.append(("matrix", dict(c, rep="object"), (2, 2)))
            res.append(("matrix", dict(c, rep="tuple"), (2, 2)))
            res.append(("matrix", dict(c, orth="gramschmidt"), (2, 2) if deep else (1, 2)))
            res.append(("matrix", dict(c, axes=[0]), (2, 2)))
            res.append(("matrix", dict(c, nd=2, sep=False, wavelet="haar"), (1, 2)))
    for nd in (1, 2):
        for mode in ("reflect", "boundary"):
            for level in (None, 1, 2):
                for filled in (True, False):
                    if not filled and (level != 2):
                        continue
                    for sep in (False, True) if nd == 2 else (False,):
                        if nd == 2 and level is None:
                            continue
                        c = dict(nd=nd, n=8 if nd == 1 else 4, wavelet="haar", rep="name", mode=mode, level=level, orth="qr", sep=sep, filled=filled)
                        res.append(("tree", c, (2, 2) if nd == 1 or deep else (1, 2)))
                        if nd == 1 and level == 2:
                            res.append(("tree", dict(c, rep="object", wavelet="db2", n=12), (2, 2) if deep else (1, 2)))
    for cls in ("product", "soft"):
        for dt in ("f64", "f32"):
            res.append(("wavelet", dict(cls=cls, dt=dt, wavelet="db2"), (2, 2)))
    return res


def cost(unit):
    if unit["kind"] == "coeffs":
        return 1
    return 10 ** unit["depth"][0] * (4 if unit["machine"] == "tree" else 1) * unit["cfg"].get("nd", 1)


def units(tier, seed):
    res = [dict(kind="machine", machine=k, cfg=c, depth=list(d), how=how, total=3 if tier == "quick" else 9)
           for k, c, d in configs(tier) for how in MACHINES[k](c).copies]
    res += [dict(kind="coeffs", op=n) for n in OPS]
    return res


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)
