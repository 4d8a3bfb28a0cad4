"""C10: reused matrix-transform objects behave like new ones."""
import itertools

import torch

import ptwt

from ..core import HarnessError
from ..util import F32, F64, chunks, dense, isolated, leaves, same, structure, tmap, tmap_any

LEVEL = "model_checking"
FRESH = True
RULE = (
    "states: the observable states (published operator, padding flag) reached; transitions: "
    "calls on a real object after every history of calls up to the depth, over an alphabet "
    "of inputs that differ in length, shape, batch layout, dtype, level count and validity; "
    "after each call its result or exception, the published operator and the padding flag "
    "are compared with those of a new object evaluated in a process of its own; the same "
    "for two objects used alternately"
)
ASSUMPTIONS = ["the behaviour of new objects (decided by C08 and C09)"]
NOTE = None

# --------------------------------------------------------------- alphabets


def signals(ndim, wavelet):
    """name -> builder of an input; 'bad' ones are rejected."""
    if ndim == 1:
        if wavelet == "haar":
            sizes = [(8,), (9,), (12,), (2, 8), (3, 9), (16,), (2,), (1, 5)]
        else:
            sizes = [(8,), (9,), (13,), (2, 8), (3, 9), (16,), (3,), (24,)]
        f32 = [(8,), (9,)]
    elif ndim == 2:
        if wavelet == "haar":
            sizes = [(4, 4), (4, 6), (6, 4), (5, 4), (2, 4, 4), (8, 8), (2, 2), (3, 5)]
        else:
            sizes = [(4, 4), (4, 6), (6, 4), (5, 4), (2, 4, 4), (8, 8), (3, 4), (5, 7)]
        f32 = [(4, 4), (5, 4)]
    else:
        if wavelet == "haar":
            sizes = [(4, 4, 4), (4, 4, 6), (6, 4, 4), (5, 4, 4), (2, 4, 4, 4), (4, 5, 3), (2, 2, 2)]
        else:
            sizes = [(4, 4, 4), (4, 4, 6), (6, 4, 4), (5, 4, 4), (2, 4, 4, 4), (3, 4, 4), (8, 8, 8)]
        f32 = [(4, 4, 4)]
    res = {f"f64{s}": (s, F64) for s in sizes}
    res.update({f"f32{s}": (s, F32) for s in f32})
    return res


DECS = {1: ptwt.MatrixWavedec, 2: ptwt.MatrixWavedec2, 3: ptwt.MatrixWavedec3}
RECS = {1: ptwt.MatrixWaverec, 2: ptwt.MatrixWaverec2, 3: ptwt.MatrixWaverec3}
MAX_REC = 16


class Call:
    """An argument together with the gradient mode of the call."""

    def __init__(self, arg, mode):
        self.arg, self.mode = arg, mode


def invoke(obj, arg):
    """The result of a call; with its gradients in mode 'grad'."""
    if not isinstance(arg, Call):
        return obj(arg)
    if arg.mode == "inference":
        with torch.inference_mode():
            res = obj(arg.arg)
        return tmap(lambda t: t.clone(), res)
    data = tmap(lambda t: t.clone().requires_grad_(), arg.arg)
    res = obj(data)
    ts = [t for _, t in leaves(data)]
    outs = [t for _, t in leaves(res)]
    if not any(t.requires_grad for t in outs):
        return [res, "no gradient"]
    cot = [dense(tuple(t.shape), t.dtype, 5 + i) for i, t in enumerate(outs)]
    return [res, list(torch.autograd.grad(outs, ts, cot, allow_unused=True))]




def make(cfg):
    kw = dict(orthogonalization=cfg["orth"])
    if cfg["ndim"] == 2:
        kw["separable"] = cfg["sep"]
    if cfg.get("axes"):
        kw["axis" if cfg["ndim"] == 1 else "axes"] = cfg["axes"] if cfg["ndim"] > 1 else cfg["axes"][0]
    if cfg["what"] == "dec":
        return DECS[cfg["ndim"]](cfg["wavelet"], cfg["level"], odd_coeff_padding_mode=cfg["mode"], **kw)
    return RECS[cfg["ndim"]](cfg["wavelet"], **kw)


def alphabet(cfg):
    """List of (name, argument)."""
    nd = cfg["ndim"]
    res = []
    if cfg["what"] == "dec":
        for i, (name, (shape, dt)) in enumerate(signals(nd, cfg["wavelet"]).items()):
            res.append((name, dense(shape, dt, kind=i)))
        shape = next(iter(signals(nd, cfg["wavelet"]).values()))[0]
        # the same values as the first input in another layout, one that asks for gradients
        x = dense(shape, F64, kind=3)
        res.append(("view", torch.stack([x, x + 1], -1)[..., 1]))
        res.append(("grad", Call(dense(shape, F64, kind=4), "grad")))
        res.append(("inference", Call(dense(shape, F64, kind=4), "inference")))
        res.append(("bad:rank", torch.tensor(1.0, dtype=F64)))
        res.append(("bad:int", torch.ones(shape, dtype=torch.int64)))
        res.append(("bad:type", "no tensor"))
        return res
    # coefficients, taken from new forward objects
    pairs = []
    sig = list(signals(nd, cfg["wavelet"]).items())
    f = {"haar": 2, "db2": 4}[cfg["wavelet"]]
    for i, (name, (shape, dt)) in enumerate(sig):
        for level in (1, 2, 3):
            if min(shape[-nd:]) < f:
                continue
            dcfg = dict(cfg, what="dec", level=level, mode="zero", axes=None)
            c = isolated(lambda: make(dcfg)(dense(shape, dt, kind=i)))
            if len(c) != level + 1:
                continue
            pairs.append((f"{name}L{level}", c))
    if cfg.get("axes"):
        raise HarnessError("not supported")
    pairs = pairs[:MAX_REC - 7]
    first = pairs[0][1]
    pairs.append(("scaled", tmap(lambda t: t * -2.5 + 1, first)))
    pairs.append(("grad", Call(first, "grad")))
    pairs.append(("inference", Call(first, "inference")))
    if nd == 1:
        pairs.append(("bad:shape", [first[0][..., :-1], first[1]]))
        pairs.append(("bad:dtype", [first[0].float(), first[1]]))
        pairs.append(("bad:struct", [first[0], (first[1],)]))
    elif nd == 2:
        bad = ptwt.WaveletDetailTuple2d(first[1][0][..., :-1], first[1][1], first[1][2])
        pairs.append(("bad:shape", (first[0], bad)))
        pairs.append(("bad:dtype", (first[0].float(), first[1])))
        pairs.append(("bad:struct", (first[0], (first[1][0],))))
    else:
        bad = {k: v[..., :-1] if k == "add" else v for k, v in first[1].items()}
        pairs.append(("bad:shape", (first[0], bad)))
        pairs.append(("bad:dtype", (first[0].float(), first[1])))
        pairs.append(("bad:struct", (first[0], {})))
    pairs.append(("bad:empty", []))
    return pairs


def operator(obj, cfg):
    if cfg["ndim"] == 3:
        return "none"
    try:
        op = obj.sparse_fwt_operator if cfg["what"] == "dec" else obj.sparse_ifwt_operator
    except (ValueError, NotImplementedError) as exc:
        return type(exc).__name__
    return op.to_dense()


def observe(obj, cfg, arg):
    """('ok', result, operator, flag) or ('raise', type)."""
    try:
        res = invoke(obj, arg)
    except Exception as exc:  # noqa: B902
        return ("raise", type(exc).__name__)
    return ("ok", tmap_any(lambda t: t.detach(), res), operator(obj, cfg), bool(obj.padded))


def expected(cfg, arg):
    return isolated(lambda: observe(make(cfg), cfg, arg))


def compare(rec, got, want, key):
    rec.check(got[0] == want[0], lambda: f"{got[:2] if got[0] == 'raise' else 'a result'} instead of "
              f"{want[:2] if want[0] == 'raise' else 'a result'} of a new object", key)
    if got[0] == "raise":
        rec.check(got[1] == want[1], lambda: f"raises {got[1]} instead of {want[1]}", key)
        return
    same(rec, got[1], want[1], "result", key)
    if isinstance(got[2], str) or isinstance(want[2], str):
        rec.check(isinstance(got[2], str) and got[2] == want[2],
                  lambda: f"operator: {structure(got[2])} instead of {structure(want[2])}", key)
    else:
        same(rec, got[2], want[2], "operator", key)
    rec.check(got[3] == want[3], f"padding flag {got[3]} instead of {want[3]}", key)


# ------------------------------------------------------------------- units
def configs(tier):
    res = []
    for w in ("haar", "db2"):
        for level in (None, 1, 2, 3):
            for mode in ("zero", "reflect", "periodic", "constant", "symmetric") if tier != "quick" else (
                    "zero", "periodic") if level in (None, 2) else ("reflect",):
                res.append(dict(what="dec", ndim=1, wavelet=w, level=level, mode=mode, orth="qr", sep=True))
        res.append(dict(what="dec", ndim=1, wavelet=w, level=2, mode="zero", orth="gramschmidt", sep=True))
        res.append(dict(what="rec", ndim=1, wavelet=w, level=0, mode=None, orth="qr", sep=True))
        res.append(dict(what="rec", ndim=1, wavelet=w, level=0, mode=None, orth="gramschmidt", sep=True))
        for sep in (True, False):
            for level in (None, 1, 2):
                res.append(dict(what="dec", ndim=2, wavelet=w, level=level, mode="zero", orth="qr", sep=sep))
            res.append(dict(what="dec", ndim=2, wavelet=w, level=2, mode="symmetric", orth="qr", sep=sep))
            res.append(dict(what="rec", ndim=2, wavelet=w, level=0, mode=None, orth="qr", sep=sep))
        for level in (None, 1, 2):
            res.append(dict(what="dec", ndim=3, wavelet=w, level=level, mode="zero", orth="qr", sep=True))
        res.append(dict(what="rec", ndim=3, wavelet=w, level=0, mode=None, orth="qr", sep=True))
    return res


def slow(cfg):
    return cfg["ndim"] == 2 and not cfg["sep"] or cfg["ndim"] == 3


def units(tier, seed):
    res = []
    for cfg in configs(tier):
        # the whole alphabet at depth 3 (2 for the slow ones), part by first call
        depth = 3 if tier == "quick" else 4 if not slow(cfg) else 3
        n = len(signals(cfg["ndim"], cfg["wavelet"])) + 6 if cfg["what"] == "dec" else MAX_REC
        size = 4 if cfg["ndim"] == 1 and tier == "quick" else 1 if slow(cfg) and cfg["what"] == "dec" else 2
        for part in chunks(list(range(n)), size):
            res.append(dict(kind="history", cfg=cfg, first=part, depth=depth))
    pairs = []
    for nd in (1, 2, 3):
        for sep in ((True, False) if nd == 2 else (True,)):
            base = dict(ndim=nd, orth="qr", sep=sep)
            dec = dict(base, what="dec", mode="zero")
            for a, b in (
                (dict(dec, wavelet="db3", level=1), dict(dec, wavelet="coif1", level=1)),
                (dict(dec, wavelet="haar", level=1), dict(dec, wavelet="haar", level=2)),
                (dict(dec, wavelet="db2", level=None), dict(dec, wavelet="haar", level=None)),
                (dict(dec, wavelet="db2", level=2), dict(dec, wavelet="db2", level=2, mode="periodic")),
                (dict(dec, wavelet="db2", level=1), dict(dec, wavelet="db2", level=1, orth="gramschmidt")),
                (dict(dec, wavelet="bior1.1", level=1), dict(dec, wavelet="rbio1.1", level=1)),
                (dict(dec, wavelet="bior2.2", level=1), dict(dec, wavelet="db3", level=1)),
            ):
                pairs.append((a, b))
    for a, b in pairs:
        res.append(dict(kind="alternate", a=a, b=b, depth=3 if tier == "quick" else 5))
    return res


def cost(unit):
    if unit["kind"] == "alternate":
        return 30 if unit["a"]["ndim"] > 1 else 8
    return {1: 5, 2: 10 if unit["cfg"]["sep"] else 30, 3: 20}[unit["cfg"]["ndim"]] + (
        20 if unit["cfg"]["orth"] != "qr" else 0)


def run_history(unit, rec):
    cfg, depth = unit["cfg"], unit["depth"]
    letters = alphabet(cfg)
    want = [expected(cfg, arg) for _, arg in letters]
    names = [name for name, _ in letters]
    if all(w[0] == "raise" for w in want):
        rec.fail("no input of the alphabet is accepted", str(cfg))
    n = len(letters)
    small = depth
    if slow(cfg) and rec.tier == "quick":
        small = 3 if cfg["wavelet"] == "haar" and cfg["ndim"] == 2 and cfg["what"] == "dec" and cfg["level"] is None and cfg["mode"] == "zero" else 2
    if cfg["orth"] != "qr":
        small = 2
    for d in range(1, small + 1):
        for seq in itertools.product([i for i in unit["first"] if i < n], *[range(n)] * (d - 1)):
            obj = make(cfg)
            key = (cfg["what"], cfg["ndim"], cfg["wavelet"], cfg["level"], cfg["mode"], cfg["orth"], cfg["sep"],
                   tuple(names[i] for i in seq))
            for pos, i in enumerate(seq):
                last = pos == len(seq) - 1
                rec.transitions += 1
                if last:
                    got = observe(obj, cfg, letters[i][1])
                    compare(rec, got, want[i], key)
                    rec.case(key)
                    if got[0] == "ok":
                        op = got[2] if isinstance(got[2], str) else tuple(got[2].shape)
                        rec.state((str(cfg), op, got[3], structure(got[1])))
                elif sum(seq) % 2:
                    # read the operator in between as well
                    observe(obj, cfg, letters[i][1])
                else:
                    try:
                        invoke(obj, letters[i][1])
                    except Exception:  # noqa: B902
                        pass
            rec.traces += 1


def run_alternate(unit, rec):
    a, b, depth = unit["a"], unit["b"], unit["depth"]
    nd = a["ndim"]
    shapes = {1: [(12,), (7,)], 2: [(6, 8), (7, 6)], 3: [(6, 6, 6), (6, 7, 6)]}[nd]
    args = [dense(s, F64, kind=i) for i, s in enumerate(shapes)] + [dense(shapes[0], F32, kind=5)]
    if nd == 3:
        args = args[:1] + args[2:]
    dcfg = [dict(c, what="dec") for c in (a, b)]
    ops = []
    for c in dcfg:
        for arg in args:
            ops.append((c, arg, isolated(lambda c=c, arg=arg: observe(make(c), c, arg))))
    # inverses with the coefficients of the forward results
    for c in dcfg:
        for k, arg in enumerate(args[:1]):
            r = dict(c, what="rec")
            coeffs = isolated(lambda c=c, arg=arg: make(c)(arg))
            if len(coeffs) < 2:
                continue
            ops.append((r, coeffs, isolated(lambda r=r, coeffs=coeffs: observe(make(r), r, coeffs))))
    if nd == 2 and not a["sep"] and rec.tier == "quick" and (b["orth"] != "qr" or (a["wavelet"], b["wavelet"]) != ("haar", "haar")):
        depth = 2
    for seq in itertools.product(range(len(ops)), repeat=depth):
        objs = {}
        for pos, i in enumerate(seq):
            c, arg, want = ops[i]
            ident = str(c)
            if ident not in objs:
                objs[ident] = make(c)
            rec.transitions += 1
            if pos == len(seq) - 1:
                key = (a["wavelet"], b["wavelet"], nd, a["sep"], seq, c["what"])
                rec.case(key)
                compare(rec, observe(objs[ident], c, arg), want, key)
                rec.state((str(a), str(b), seq[-2:]))
            else:
                try:
                    objs[ident](arg)
                except Exception:  # noqa: B902
                    pass
        rec.traces += 1


def run(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)

