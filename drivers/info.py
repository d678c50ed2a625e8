"""Entropies, coherent informations, fidelities and optimisations of the real channel objects."""
import numpy as np
from common import Guard, main, integer, gmat, OFF
from chan import cmat, build, choi_of

from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan.param import OverParam, CholeskyParam

guard = Guard(300)


def fx(v, scale=1e5):
    """fixed point, or the off-lattice token if it is not a real finite number"""
    try:
        v = complex(v)
    except (TypeError, ValueError):
        return OFF
    if not np.isfinite(v.real) or abs(v.imag) > 1e-6 or abs(v.real * scale) > 900000:
        return OFF
    return int(round(v.real * scale))


def obj(case, typ, ks=None, D=None):
    o = dict(case["chan"], type=typ)
    if ks is not None:
        o.update(ks=ks, D=D, orth=[])
    if typ in ("asparse", "achoi"):
        o["orth"] = []
    if typ == "adense_plain":
        o.update(type="adense", orth=[])
    return build(o)


def run_case(c, emit):
    op = c["op"]
    if op == "entropy":
        ch = AnalyticQChan([np.eye(2)], [1, 1], 2, 2, sparse=bool(c["sparse"]))
        blocks = [cmat(b) / c["M"] for b in c["blocks"]]
        arg = blocks[0] if c["form"] == "array" else blocks
        kw = {"cut_off": (c["cutk"] + .5) / c["M"]} if c["cutk"] else {}
        out, exc = guard(ch.entropy, arg, **kw)
        emit(op=op, blocks=c["blocks"], M=c["M"], specs=c["specs"], cutk=c["cutk"], out=OFF if exc else fx(out),
             exc=exc)
        return
    if op == "opt":
        return optimise(c, emit)
    n = c.get("n", 1)
    outs, excs, regs = [], [], []

    def coh(o, rho, n, **kw):
        v, e = guard(o.coherent_information, rho, n, **kw)
        excs.append(e)
        return OFF if e else fx(v)
    rec = {}
    if op in ("coh", "pure", "unitary"):
        if op == "pure":
            psi = np.array([complex(*v) for v in c["psi"]])
            rho = np.outer(psi, psi.conj()) / np.vdot(psi, psi).real
        else:
            rho = cmat(c["rho"]) / c["T"]
        for typ in c["types"]:
            o = obj(c, typ)
            for m in c.get("warm", []):                 # history of numbers of uses
                guard(o.coherent_information, np.eye(o.input_dimension // 1 and
                                                      (c["chan"]["din"] ** c["chan"]["nin"]) ** m) /
                      (c["chan"]["din"] ** c["chan"]["nin"]) ** m, m)
            outs.append(coh(o, rho, n))
            if c.get("reg"):
                regs.append(coh(o, rho, n, regularized=True))
        rec = {k: c[k] for k in ("rho", "T", "sout", "sw", "srho", "psi") if k in c}
        rec["per"] = 1
    elif op == "prod":
        rho = np.array([[1.]])
        for f in c["factors"]:
            rho = np.kron(rho, cmat(f["rho"]) / f["T"])
        n = len(c["factors"])
        for typ in c["types"]:
            o = obj(c, typ)
            outs.append(coh(o, rho, n))
            regs.append(coh(o, rho, n, regularized=True))
        rec = {"factors": c["factors"]}
    elif op == "pair":
        rho = cmat(c["rho"]) / c["T"]
        for typ in c["types"]:
            outs.append(coh(obj(c, typ), rho, n))
            outs.append(coh(obj(c, typ, c["ks2"], c["D2"]), rho, n))
        rec = {"ks2": c["ks2"], "D2": c["D2"]}
    elif op == "proc":
        rho = cmat(c["rho"]) / c["T"]
        a = obj(c, "adense")
        b = build(dict(c["chan2"], type="adense", orth=[]))
        outs = [coh(a, rho, 1), coh(b + a, rho, 1)]
    elif op == "fidmix":
        A, T, D = cmat(c["rho"]), c["T"], c["chan"]["D"]
        for typ in c["types"]:
            v, e = guard(obj(c, typ).fidelity_two_states, A / T, 1)
            excs.append(e)
            outs.append(OFF if e else fx(complex(v) ** 2 * D * T * T, 10))
        rec = {"rho": c["rho"], "T": T}
    elif op == "fidprod":
        o = obj(c, c["types"][0])
        rhos = [cmat(r) / t for r, t in c["rhos"]]
        prod = np.array([[1.]])
        for r in rhos:
            v, e = guard(o.fidelity_two_states, r, 1)
            excs.append(e)
            outs.append(OFF if e else fx(v, 1e4))
            prod = np.kron(prod, r)
        v, e = guard(o.fidelity_two_states, prod, len(rhos))
        excs.append(e)
        outs.append(OFF if e else fx(v, 1e4))
    emit(op=op, ks=c["chan"]["ks"], D=c["chan"]["D"], n=n, outs=outs, excs=excs, regs=regs, **rec)


class Mine(OverParam):
    """a user's own parameterization"""


class NotAParam:
    """not a parameterization"""
    bounds = OverParam.bounds
    random_vectors = OverParam.random_vectors
    rho_from_vec = OverParam.rho_from_vec


def refusal(c, o, kw):
    kw.update({"optimizer": {"optimizer": "SLSQP"}, "optimizer2": {"optimizer": "nelder-mead"},
               "param": {"param": "cholesky2"}, "param2": {"param": NotAParam}, "param3": {"param": 3},
               "nosamples": {"optimizer": "slsqp", "samples": [], "lipschitz": 0},
               "lipschitz": {"lipschitz": -1}, "lipschitz2": {"lipschitz": 1.5},
               "pool": {"use_pool": -1}, "pool2": {"use_pool": 1.5}}[c["bad"]])
    f = (lambda: o.optimize_coherent(c["n"], c["rank"], **kw)) if c["objective"] == "coherent" else \
        (lambda: o.optimize_fidelity(c["n"], **kw))
    return guard(f)[1]


def starts(c):
    return [np.array(v, dtype=float) / c["scale"] for v in c["samples"]]


def unchanged(c, samples):
    want = starts(c)
    return int(len(samples) == len(want) and all(np.array_equal(a, b) for a, b in zip(samples, want)))


def optimise(c, emit):
    n, objective = c["n"], c["objective"]
    o = obj(c, c["typ"])
    base = {"overparam": OverParam, "cholesky": CholeskyParam, "class": Mine}[c["param"]]
    param = Mine if c["param"] == "class" else c["param"]
    dim = (c["chan"]["din"] ** c["chan"]["nin"]) ** n
    rank = c["rank"]
    samples = starts(c)
    kw = dict(optimizer=c["method"], param=param, lipschitz=c["lipschitz"], use_pool=c["use_pool"],
              maxiter=c["maxiter"], samples=samples)
    for m in c.get("warm", []):
        d = (c["chan"]["din"] ** c["chan"]["nin"]) ** m
        guard(o.channel, np.eye(d) / d, m)

    def value(ch, rho):
        f = ch.coherent_information if objective == "coherent" else ch.fidelity_two_states
        v, e = guard(f, rho, n)
        return OFF if e else fx(v)
    if c.get("bad"):
        return emit(op="optbad", what=c["bad"], exc=refusal(c, o, kw))
    if objective == "coherent":
        if c.get("reg"):
            kw["regularized"] = True
        res, exc = guard(o.optimize_coherent, n, rank, **kw)
    else:
        res, exc = guard(o.optimize_fidelity, n, **kw)
    rec = dict(op="opt", n=n, objective=objective, method=c["method"], lipschitz=c["lipschitz"], rank=rank, dim=dim,
               reg=c.get("reg", 0), dim1=c["chan"]["din"] ** c["chan"]["nin"], slack=c["slack"], bound=c["bound"],
               reach=c.get("reach", OFF), exc=exc, fields=0, r_method="", r_objective="", r_lipschitz=-1, rho=[],
               val=OFF, again=OFF, svals=[], kept=unchanged(c, samples))
    samples = starts(c)
    if not exc:
        fresh = obj(c, "adense")
        want = {"optimal_rho", "optimal_val", "method", "success", "objective", "lipschitz"}
        rec["fields"] = int(isinstance(res, dict) and want <= set(res))
        if rec["fields"]:
            rho = np.asarray(res["optimal_rho"])
            rec.update(r_method=str(res["method"]), r_objective=str(res["objective"]),
                       r_lipschitz=int(bool(res["lipschitz"])), val=fx(res["optimal_val"]),
                       rho=[[[fx(v.real, 1e4), fx(v.imag, 1e4)] for v in row] for row in rho.astype(complex)],
                       again=value(fresh, rho),
                       svals=[value(fresh, base.rho_from_vec(s, dim, rank)) for s in samples])
    emit(**rec)


if __name__ == "__main__":
    main(run_case)
