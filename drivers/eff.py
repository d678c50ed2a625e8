"""Effective channels of stabilizer codes and optimal decoders found by the real code."""
import itertools

import numpy as np
from common import Guard, main, OFF
from info import fx, Mine
from alg import row_to_str

from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan.param import OverParam, CholeskyParam
from PyQCodes.codes import StabilizerCode
from PyQCodes.find_codes import effective_channel_with_stabilizers
from PyQCodes.avgfid.avg_fidelity import optimize_decoder_stabilizers

guard = Guard(400)
X, Z, I2 = np.array([[0., 1.], [1., 0.]]), np.diag([1., -1.]), np.eye(2)


def pauli(x, z):
    m = np.eye(1)
    for a, b in zip(x, z):
        m = np.kron(m, (X if a else I2).dot(Z if b else I2))
    return m


CLIFFORD = {"I": I2, "S": np.diag([1., 1j]), "H": np.array([[1., 1.], [1., -1.]]) / np.sqrt(2)}
CLIFFORD["SH"] = CLIFFORD["S"].dot(CLIFFORD["H"])


def twist(c):
    m = np.eye(1)
    for g in c["twist"]:
        m = np.kron(m, CLIFFORD[g])
    return m if any(g != "I" for g in c["twist"]) else np.eye(len(m))


def kraus_of(c):
    """the channel as the user gives it: scaled Pauli matrices with any phases"""
    W = float(sum(e["w"] for e in c["errs"]))
    ks = []
    for e in c["errs"]:
        m = np.sqrt(e["w"] / W) * pauli(e["x"], e["z"]).dot(twist(c))
        if e["ph"] == "i":
            m = 1j * m
        elif e["ph"] == "-":
            m = -m
        ks.append(m)
    return ks


def give(c):
    rows = c["rows"]
    return {"str": lambda: [row_to_str(r) for r in rows], "array": lambda: np.array(rows)}[c["form"]]()


def words(c):
    """independent of the library: the channel on all n qubits"""
    ks = [np.sqrt(e["w"] / float(sum(f["w"] for f in c["errs"]))) * pauli(e["x"], e["z"]).dot(twist(c))
          for e in c["errs"]]
    out = []
    for w in itertools.product(ks, repeat=c["n"] // c["k"]):
        m = np.eye(1)
        for k in w:
            m = np.kron(m, k)
        out.append(m)
    return out


def ent(m):
    e = np.linalg.eigvalsh((m + np.conj(m).T) / 2)
    e = e[e > 1e-12]
    return float(-(e * np.log2(e)).sum())


def mask(bits):
    return int("".join(map(str, bits)), 2) if bits else 0


def run_case(c, emit):
    n, k = c["n"], c["k"]
    rec = dict(op=c["op"], n=n, k=k, rows=c["rows"], twist=c["twist"], kb=c.get("kb", k),
               errs=[{"x": mask(e["x"]), "z": mask(e["z"]), "w": e["w"]} for e in c["errs"]], bad=c.get("bad", ""))
    if c["op"] == "eff":
        rec.update(effective(c))
    else:
        rec.update(decoder(c))
    emit(**rec)


def effective(c):
    n, k = c["n"], c["k"]
    d = 2 ** k
    base = {"overparam": OverParam, "cholesky": CholeskyParam, "class": Mine}[c["param"]]
    samples = [np.array(v, dtype=float) / 10. for v in c["samples"]]
    opts = {"param": Mine if c["param"] == "class" else c["param"], "lipschitz": c["lipschitz"],
            "use_pool": c["use_pool"], "maxiter": c["maxiter"], "samples": samples}
    kw = {"optimize": c["optimize"]} if c["optimize"] != "default" else {}
    if c["optimize"] == "number":
        kw["optimize"] = 5
    before, start = dict(opts), [v.copy() for v in samples]
    given = give(c)
    ks = kraus_of(c)
    old = [m.copy() for m in ks]
    res, exc = guard(effective_channel_with_stabilizers, given, (n, k), ks, sparse=bool(c["sparse"]), options=opts, **kw)
    rec = dict(exc=exc, fields=0, r_method="", r_objective="", r_lipschitz=-1, rho=[], val=OFF, again=OFF, svals=[],
               lipschitz=c["lipschitz"], param=c["param"], mixed=c["mixed"], rank=d, dim=d, tight=c["tight"], kept=1)
    if exc:
        return rec
    want = {"optimal_rho", "optimal_val", "method", "success", "objective", "lipschitz"}
    rec["fields"] = int(isinstance(res, dict) and want <= set(res))
    rec["kept"] = int(opts == before and all(np.array_equal(m, o) for m, o in zip(ks, old)) and
                      len(samples) == len(start) and all(np.array_equal(a, b) for a, b in zip(samples, start)))
    if not rec["fields"]:
        return rec
    V = np.asarray(StabilizerCode(give(c), n, k).encode_krauss_operators())
    ops = [w.dot(V) for w in words(c)]

    def value(rho):
        out = sum(a.dot(rho).dot(np.conj(a).T) for a in ops)
        st = np.array([a.dot(rho) for a in ops])
        g = np.einsum("aij,bij->ab", st, np.conj(np.array(ops)))
        return ent(out) - ent(g)
    rho = np.asarray(res["optimal_rho"])
    rec.update(r_method=str(res["method"]), r_objective=str(res["objective"]),
               r_lipschitz=int(bool(res["lipschitz"])), val=fx(res["optimal_val"]),
               rho=[[[fx(v.real, 1e4), fx(v.imag, 1e4)] for v in row] for row in rho.astype(complex)])
    if rho.shape == (d, d):
        rec.update(again=fx(value(rho)), svals=[fx(value(base.rho_from_vec(s, d, d))) for s in samples])
    return rec


def decoder(c):
    """the decoder found with each of the iteration budgets"""
    n, k = c["n"], c["k"]
    V = np.asarray(StabilizerCode(give(c), n, k).encode_krauss_operators())
    N, K = 2 ** n, 2 ** k
    us = [np.conj(w.dot(V)).T.ravel(order="F") for w in words(c)]
    rec = dict(exc="", fields=1, runs=[])
    for o in c["options"]:
        ks = kraus_of(c)
        res, exc = guard(optimize_decoder_stabilizers, give(c), (n, k), ks, sparse=bool(c["sparse"]),
                         **({"options": dict(o)} if o else {}))
        rec["exc"] = rec["exc"] or exc
        if exc:
            break
        if not (isinstance(res, dict) and {"optimal_recov", "optimal_val", "time", "status"} <= set(res)):
            rec["fields"] = 0
            break
        # the recovery operation that was found: Choi matrix, input (n qubits) times output (k qubits)
        J = np.array(res["optimal_recov"].value)
        shape = int(J.shape == (N * K, N * K))
        r = dict(val=fx(res["optimal_val"]), shape=shape, refit=OFF, tp=OFF, psd=OFF)
        if shape:
            tp = np.abs(np.einsum("aibi->ab", J.reshape(N, K, N, K)) - np.eye(N)).max()
            psd = np.linalg.eigvalsh((J + np.conj(J).T) / 2).min()
            herm = np.abs(J - np.conj(J).T).max()
            # entanglement fidelity of decoder o channel o encoder with the maximally mixed state
            f = sum(np.vdot(u, J.dot(u)) for u in us) / K ** 2
            r.update(refit=fx(f), tp=fx(max(tp, herm), 1e4), psd=fx(psd, 1e4))
        rec["runs"].append(r)
    return rec


if __name__ == "__main__":
    main(run_case)
