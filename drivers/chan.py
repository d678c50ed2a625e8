"""Drive the channel objects through scripts of public calls."""
import random

import numpy as np
from sparse import COO
from common import Guard, main, integer, gmat, dense, OFF

from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan._kraus import DenseKraus, SparseKraus
from PyQCodes.chan._choi import ChoiQutip

guard = Guard(120)
ANALYTIC = ("adense", "asparse", "achoi")


def cmat(m):
    return np.array([[complex(*v) for v in r] for r in m], dtype=np.complex128)


def choi_of(ks, sg):
    di = ks[0].shape[1]
    j = 0
    for a, s in zip(ks, sg):
        v = np.concatenate([a[:, i] for i in range(di)])
        j = j + s * np.outer(v, v.conj())
    return j


def build(o):
    ks = [cmat(k) / np.sqrt(o["D"]) for k in o["ks"]]
    sg = o.get("sg") or [1] * len(ks)
    t = o["type"]
    numb = list(o["declare"]) if "declare" in o else [o["nin"], o["nout"]]
    din, dout = o.get("ddin", o["din"]), o.get("ddout", o["dout"])
    if t in ("choi", "achoi"):
        j = choi_of(ks, sg)
        return ChoiQutip(j, numb, din, dout) if t == "choi" else AnalyticQChan(j, numb, din, dout)
    form = o.get("form", "list")
    ops = ks if form == "list" else np.array(ks) if form == "array" else COO(np.array(ks))
    orth = o.get("orth") or ()
    if t == "dense":
        return DenseKraus(ops, numb, din, dout, orth)
    if t == "sparse":
        return SparseKraus(ops, numb, din, dout)
    return AnalyticQChan(ops, numb, din, dout, orthogonal_krauss=orth, sparse=(t == "asparse"))


def same_object():
    """Equal matrices of a case are one and the same array: calls must not change their arguments."""
    seen = {}

    def get(m, T=1):
        key = repr((m, T))
        if key not in seen:
            seen[key] = cmat(m) / T if T != 1 else cmat(m)
        return seen[key]
    return get


def run_case(case, emit):
    objs = []          # [real object, type, D]
    mat = same_object()
    emit(op="begin")
    for op in case["script"]:
        kind = op[0]
        if kind == "new":
            o = op[1]
            obj, exc = guard(build, o)
            tp = -1
            if not exc and o["type"] in ("dense", "sparse"):
                t, e = guard(obj.is_trace_perserving)
                tp = -1 if e else int(bool(t))
            emit(op="new", type=o["type"], ks=o["ks"], D=o["D"], nin=o["nin"], nout=o["nout"], din=o["din"],
                 dout=o["dout"], orth=list(o.get("orth") or []), sg=o.get("sg") or [1] * len(o["ks"]),
                 mismatch=o.get("mismatch", 0), exc=exc, tp=tp)
            if exc:
                return
            objs.append([obj, o["type"], o["D"], 1])
            continue
        if kind == "cat":                        # the static functions, on sets of operators
            cls = DenseKraus if op[2] == "dense" else SparseKraus
            forms = {"list": list, "array": np.array, "coo": lambda ks: COO(np.array(ks))}
            k1 = forms[op[5]]([cmat(k) for k in op[3]])
            k2 = forms[op[6]]([cmat(k) for k in op[4]])
            out, exc = guard(cls.serial_concatenate if op[1] == "serial" else cls.parallel_concatenate, k1, k2)
            emit(op="cat", kind=op[1], ks1=op[3], ks2=op[4], exc=exc,
                 outs=[] if exc else [gmat(m, 1.) or [] for m in dense(out)])
            continue
        a = op[1]
        obj, typ, D, _ = objs[a]
        if kind in ("serial", "parallel"):
            b = op[2]
            other = objs[b]
            res, exc = guard((lambda: obj + other[0]) if kind == "serial" else (lambda: obj * other[0]))
            emit(op=kind, a=a, b=b, exc=exc)
            if exc:
                return
            if typ != other[1]:                      # sparse as soon as one of them is
                typ = "asparse"
            objs.append([res, typ, D * other[2], 1])
            continue
        if kind == "choi_n":
            rho = mat(op[3])
            _, exc = guard(lambda: obj.channel(rho, op[2]))
            emit(op="choi_n", a=a, n=op[2], exc=exc)
            continue
        n = op[2]
        analytic = typ in ANALYTIC
        choi = typ in ("choi", "achoi")
        sc = float(D) ** n

        def use():
            if not analytic and not choi:
                if n != objs[a][3] or random.random() < .5:      # nothing to change: asked for or not
                    obj.update_kraus_operators(n)
                objs[a][3] = n

        def chan(rho, adj):
            use()
            if analytic:
                return obj.channel(rho, n, adjoint=True) if adj else obj.channel(rho, n)
            if choi:
                return obj.channel(rho)
            return obj.channel(rho, adjoint=True) if adj else obj.channel(rho)
        rec = dict(op=kind, a=a, n=n)
        if kind == "channel":
            adj, rho, T = op[3], mat(op[4], op[5]), op[5]
            out, exc = guard(chan, rho, adj)
            rec.update(adj=adj, rho=op[4], out=[] if exc else gmat(out, sc * T) or [])
        elif kind == "batch":
            adj = op[3]
            out, exc = guard(chan, np.array([cmat(r) for r in op[4]]), adj)
            rec.update(adj=adj, rhos=op[4], outs=[] if exc else [gmat(m, sc) or [] for m in dense(out)])
        elif kind == "exch":
            adj, rho, T = op[3], mat(op[4], op[5]), op[5]

            def f():
                use()
                return obj.entropy_exchange(rho, n, adjoint=True) if adj else obj.entropy_exchange(rho, n)
            out, exc = guard(f)
            if not exc:
                out = [out] if adj else list(out)
            rec.update(adj=adj, rho=op[4], outs=[] if exc else [gmat(m, sc * T) or [] for m in out])
        elif kind == "comp":                     # rho = B^2 / T, so that its root is B / sqrt(T)
            B, T = cmat(op[3]), op[4]
            out, exc = guard(lambda: obj.complementary_channel(B.dot(B) / T))
            rec.update(B=op[3], out=[] if exc else gmat(out, sc * T, 1e-4) or [])
        elif kind == "nth":
            def f():
                use()
                if analytic:
                    obj.channel(np.eye(obj.krauss.input_dim ** n), n)
                    return obj.nth_kraus_operators
                return obj.nth_kraus_ops
            out, exc = guard(f)
            rec.update(outs=[] if exc else [gmat(m, np.sqrt(sc)) or [] for m in dense(out)])
        elif kind == "kraus":
            out, exc = guard(lambda: obj.kraus if analytic else
                             obj.kraus_operators() if choi else obj.kraus_ops)
            if not exc:
                ops = [dense(m) for m in (dense(out) if not isinstance(out, list) else out)]
                out = gmat(choi_of(ops, [1] * len(ops)), D) if ops else []
            rec.update(out=[] if exc else out)
        elif kind == "props":
            def f():
                use()
                if analytic and not choi:
                    obj.channel(np.eye(obj.krauss.input_dim ** n), n)
                    return (list(obj.numb_qubits), obj.dim_in, obj.dim_out, obj.input_dimension,
                            obj.output_dimension, obj.numb_krauss, len(obj.nth_kraus_operators))
                if analytic:
                    return (list(obj.numb_qubits), obj.dim_in, obj.dim_out, obj.input_dimension,
                            obj.output_dimension, -1, -1)
                if choi:
                    return (list(obj.numb_qubits), obj.dim_in, obj.dim_out, obj.input_dim, obj.output_dim, -1, -1)
                return (list(obj.numb_qubits), obj.dim_in, obj.dim_out, obj.input_dim ** n, obj.output_dim ** n,
                        len(obj), len(obj.nth_kraus_ops))
            out, exc = guard(f)
            out = out or ([], -1, -1, -1, -1, -1, -1)
            rec.update(dict(zip(("numb", "din", "dout", "input", "output", "numb_kraus", "nth_count"),
                                [[integer(v) for v in out[0]]] + [integer(v) for v in out[1:]])))
        elif kind == "ptrace":                   # what the two arguments select from the Choi matrix
            def f():
                k, dims = ChoiQutip.constraint_partial_trace([op[3], op[4]], op[5], op[6])
                r, c = [x[0] for x in dims], [x[1] for x in dims]
                t = np.asarray(obj.choi).reshape(r + c)
                return np.trace(t, axis1=k, axis2=k + len(r))
            out, exc = guard(f)
            rec.update(out=[] if exc else gmat(out, D) or [])
        elif kind == "fid":
            psi = np.array([complex(*v) for v in op[3]])
            T = float(np.real(np.vdot(psi, psi)))
            out, exc = guard(lambda: obj.fidelity_two_states(np.outer(psi, psi.conj()) / T, n))
            rec.update(psi=op[3], out=OFF if exc else integer(complex(out) ** 2 * sc * T * T, min(.2, max(1e-4, 1e-6 * sc * T * T))))
        elif kind == "aef":
            probs, states, T, Q = op[3], op[4], op[5], op[6]
            out, exc = guard(lambda: obj.average_entanglement_fidelity(
                [p / Q for p in probs], [cmat(s) / T for s in states]))
            rec.update(probs=probs, states=states, out=OFF if exc else integer(out * Q * D * T * T, 1e-5))
        rec["exc"] = exc
        emit(**rec)


if __name__ == "__main__":
    main(run_case)
