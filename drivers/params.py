"""Vectors and states of the real parameterizations."""
import numpy as np
from common import Guard, main, integer, gmat, OFF
from chan import cmat

from PyQCodes.chan.param import StandardBasis, OverParam, CholeskyParam

guard = Guard(60)
CLS = {"standard": StandardBasis, "overparam": OverParam, "cholesky": CholeskyParam}


def run_case(c, emit):
    op, p = c["op"], c["param"]
    cls = CLS[p]
    n, r = c["nsize"], c.get("rank", 0)
    rk = r or n
    rec = dict(op=op, param=p, nsize=n, rank=r)

    def rho_of(vec):
        if p == "standard":
            return cls.rho_from_vec(vec, n)
        return cls.rho_from_vec(vec, n, r) if r else cls.rho_from_vec(vec, n)
    if op == "rho":
        vec = c["vec"]
        s = c["scale"]
        arg = [v / s for v in vec]
        if c["form"] == "array":
            arg = np.array(arg)
        out, exc = guard(rho_of, arg)
        t = s if p == "standard" else sum(v * v for v in vec)
        rec.update(vec=vec, out=[] if exc else gmat(out, t) or [], exc=exc)
    elif op == "vec":
        out, exc = guard(cls.vec_from_rho, cmat(c["rho"]) / c["scale"], n)
        rec.update(rho=c["rho"], out=[] if exc else [integer(v * c["scale"]) for v in out], exc=exc)
    elif op == "numb":
        lo, hi = c["lo"], c["hi"]

        def f():
            if p == "standard":
                return cls.numb_variables(n), cls.bounds(n)
            if p == "cholesky" and c["custom"]:
                return cls.numb_variables(n, r), cls.bounds(n, r, lo / 1000, hi / 1000)
            return cls.numb_variables(n, r), cls.bounds(n, r)
        out, exc = guard(f)
        rec.update(lo=lo, hi=hi, numb=OFF if exc else integer(out[0]), exc=exc,
                   bounds=[] if exc else [[integer(1000 * b[0]), integer(1000 * b[1])] for b in out[1]])
    elif op == "rand":
        lo, hi, dist = c["lo"], c["hi"], c["dist"]

        def f():
            args = {} if dist == "default" else {"dist": "gauss" if dist == "bad" else dist}
            if c["custom"]:
                args.update(l_bnd=lo / 1000, u_bnd=hi / 1000)
            return [cls.random_vectors(n, r, **args) for _ in range(3)]
        out, exc = guard(f)
        valid = 0
        if not exc:
            rhos = [guard(cls.rho_from_vec, v, n, r) for v in out]
            valid = int(all(not e and np.allclose(m, np.conj(m).T) and abs(np.trace(m) - 1) < 1e-9
                            and np.linalg.eigvalsh(m).min() > -1e-9
                            and np.linalg.matrix_rank(m, tol=1e-9) <= r for m, e in rhos))
        rec.update(lo=lo, hi=hi, dist=c["as"] if dist == "default" else dist, exc=exc, valid=valid,
                   vecs=[] if exc else [[int(np.floor(x * 1e5)) for x in v] for v in out])
    elif op == "round":
        a = cmat(c["a"])
        m = a.dot(np.conj(a).T)
        t = np.trace(m).real

        def f():
            v = cls.vec_from_rho(m / t, n, r) if r else cls.vec_from_rho(m / t, n) if p == "cholesky" \
                else cls.vec_from_rho(m / t, n, n)
            return v, rho_of(v)
        out, exc = guard(f)
        # eigenvalues below 1e-5 may be taken as zero: the state is then only that close
        eigs = np.linalg.eigvalsh(m / t)
        tol = min(.4, 4e-5 * t) if any(1e-13 < e < 2e-5 for e in eigs) else 1e-5
        rec.update(a=c["a"], exc=exc, len=-1 if exc else len(out[0]), out=[] if exc else gmat(out[1], t, tol) or [])
    elif op == "cvec":
        vec = c["vec"]
        t = np.sqrt(sum(v * v for v in vec))

        def f():
            return cls.vec_from_rho(rho_of(np.array(vec) / c["scale"]), n, rk)
        out, exc = guard(f)
        rec.update(vec=vec, exc=exc, out=[] if exc else [integer(v * t, 1e-5) for v in out])
    emit(**rec)


if __name__ == "__main__":
    main(run_case)
