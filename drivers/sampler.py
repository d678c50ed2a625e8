"""The real Lipschitz sampler with a scripted parameterization and objective."""
import numpy as np
from common import Guard, main, integer, OFF

from PyQCodes._optimize import initial_guesses_lipschitz
from PyQCodes.chan.param import ParameterizationABC

guard = Guard(60)
SCALE = 64.


def run_case(c, emit):
    rhos = [np.array([complex(*v) for v in r]) / SCALE for r in c["rhos"]]
    d = int(round(np.sqrt(len(rhos[0]))))
    rhos = [r.reshape(d, d) for r in rhos]
    drawn, evaluated, ok = [], [], [1]
    token, rank, n = object(), c["rank"], c["n"]

    class Script(ParameterizationABC):
        @staticmethod
        def random_vectors(nsize, rk, *a, **k):
            if nsize != d or rk != rank:
                ok[0] = 0
            drawn.append(len(drawn) + 1)
            return np.array([float(len(drawn)), .5])

        @staticmethod
        def rho_from_vec(vec, nsize, rk=None):
            if nsize != d or rk != rank:
                ok[0] = 0
            return rhos[int(vec[0]) - 1].copy()

    def f(vec, nsize, rk, param, chan, uses):
        if (nsize, rk, uses) != (d, rank, n) or param is not Script or chan is not token:
            ok[0] = 0
        evaluated.append(int(vec[0]))
        return -c["vals"][int(vec[0]) - 1] / SCALE

    kw = dict(numb_samples=c["numb"], numb_tries=c["tries"])
    if c.get("default"):
        kw = {}
    out, exc = guard(initial_guesses_lipschitz, f, d, rank, Script, token, n, **kw)
    emit(op="sample", rhos=c["rhos"], vals=c["vals"], numb=c["numb"], tries=c["tries"], exc=exc,
         ids=[] if exc else [int(v[0]) for v in out[0]],
         evals=[] if exc else [integer(v * SCALE) for v in out[1]], evaluated=evaluated,
         success=OFF if exc else int(bool(out[2])), args=ok[0])


if __name__ == "__main__":
    main(run_case)
