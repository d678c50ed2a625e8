"""Parameterizations and the Lipschitz sampler: C25, C30."""
import itertools

import chancases as ch
from checks_codes import rng_for

CHECKS, ASSUMPTIONS = {}, {}


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


def nv(param, n, r):
    return n * n if param == "standard" else 2 * n * r if param == "overparam" else \
        r * (r + 1) + 2 * (n - r) * r - r


@check("C25", "integer vectors (any real vector is a limit of scaled ones); results rounded to the integer lattice")
def c25(c):
    rng = rng_for(c)
    q = 1 if c.quick else 10
    cases = []

    def add(op, param, n, rank, **kw):
        cases.append(dict(kw, op=op, param=param, nsize=n, rank=rank,
                          case="%s.%s.%d.%d.%d" % (op, param, n, rank, len(cases))))

    def vec(param, n, r, top=4, positive=False):
        while True:
            v = [rng.randint(-top, top) for _ in range(nv(param, n, r))]
            if param == "cholesky" and (positive or rng.random() < .7):
                v[:r] = [rng.randint(1 if positive else 0, top) for _ in range(r)]
            if any(v):
                return v
    sizes = [(n, r) for n in (range(1, 6) if c.quick else range(1, 10)) for r in range(1, n + 1)]
    for n, r in sizes:
        for param in ("overparam", "cholesky"):
            for i in range(2 * q):
                add("rho", param, n, r, vec=vec(param, n, r), scale=rng.choice([1, 4, 10, 1000, 10 ** 6, 0.001]),
                    form=rng.choice(["list", "array"]))
            # one coordinate at a time: which entry it moves
            if n <= 4:
                base = vec(param, n, r, positive=True)
                for k in rng.sample(range(len(base)), min(len(base), 3)) if c.quick else range(len(base)):
                    v = list(base)
                    v[k] += 1
                    add("rho", param, n, r, vec=v, scale=4, form="array")
            if r == n:
                add("rho", param, n, 0, vec=vec(param, n, n), scale=4, form="array")
            # vectors that do not fit
            bad = vec(param, n, r)
            add("rho", param, n, r, vec=bad + [1], scale=1, form="list")
            add("rho", param, n, r, vec=bad + [1, 1], scale=1, form="array")
            if len(bad) > 2:
                add("rho", param, n, r, vec=bad[:-2], scale=1, form="array")
            add("rho", param, n, n + 1, vec=[1] * nv(param, n, n + 1), scale=1, form="array")
            add("numb", param, n, r, lo=-1000, hi=1000, custom=0)
            for dist in ("normal", "uniform", "default", "bad"):
                add("rand", param, n, r, lo=-1000, hi=1000, custom=0, dist=dist,
                    **{"as": "normal" if param == "overparam" else "uniform"})
            for i in range(2 * q):
                a = ch.random_matrix(rng, n, 1.0)
                rk = rng.randint(1, r)
                a = [row[:rk] for row in a]
                if i % 2 == 0:       # rows of zeros: the leading block is singular
                    a[0] = [[0, 0]] * rk
                if not any(v != [0, 0] for row in a for v in row):
                    a[-1] = [[1, 1]] + [[0, 0]] * (rk - 1)
                add("round", param, n, r, a=a)
                if r == n:
                    add("round", param, n, 0, a=a)
        for param in ("overparam", "cholesky"):      # parts of very different sizes
            v = vec(param, n, r, 2)
            for k in rng.sample(range(len(v)), min(2, len(v))):
                v[k] = rng.choice([50, 90]) if param == "cholesky" and k < r else rng.choice([-90, -50, 50, 90])
            add("rho", param, n, r, vec=v, scale=rng.choice([1, 10, 10 ** 4, 10 ** 5]), form="array")
            if r > 1 or param == "overparam":
                for i in range(4 if n <= 4 else 0):
                    a = [[[rng.choice([100, -60, 90, 0, 30, -200]), rng.choice([0, 0, 1, -1]) if i % 2 else 0]
                          for _ in range(r)] for _ in range(n)]
                    a[rng.randrange(n)][0] = [70, 1]
                    if i >= 2:             # nearly imaginary
                        a[0] = [[-y, x] for x, y in a[0]]
                    add("round", param, n, r, a=a)
        add("numb", "cholesky", n, r, lo=rng.choice([-500, -2000, 0]), hi=rng.choice([250, 2000]), custom=1)
        add("rand", "cholesky", n, r, lo=rng.choice([-500, -2000, 0]), hi=rng.choice([250, 2000]), custom=1,
            dist="uniform")
    for n in range(1, 5 if c.quick else 8):
        add("numb", "standard", n, 0, lo=-1000, hi=1000, custom=0)
        for i in range(4 * q):
            add("rho", "standard", n, 0, vec=[rng.randint(-9, 9) for _ in range(n * n)], scale=rng.choice([1, 8]),
                form="array")
            add("vec", "standard", n, 0, rho=ch.random_hermitian(rng, n, 1.0), scale=rng.choice([1, 8]))
            add("cvec", "cholesky", n, 0, vec=vec("cholesky", n, n, positive=True), scale=rng.choice([1, 8]))
        add("rho", "standard", n, 0, vec=[1] * (n * n + 1), scale=1, form="array")
    for name in ("over", "chol", "over1") + (() if c.quick else ("chol3",)):
        c.model("ParamLife", "MC_ParamLife_%s.cfg" % name, workers=8, expect_distinct=50)
    c.traces("params", "ParamTrace", cases)


@check("C30", "scripted draws with dyadic entries, so that every comparison of the sampler is exact")
def c30(c):
    rng = rng_for(c)
    cases = []
    units = [[1, 0], [0, 1], [3, 4], [4, -3], [-5, 12]]
    for i in range(120 if c.quick else 3000):
        d = rng.choice([1, 2, 2, 3])
        tries = rng.choice([0, 1, 3, 8, 20])
        numb = rng.choice([1, 2, 3, 5, 9, 30])
        if i % 10 == 0:
            tries, numb = 100, 10                      # the defaults
        # along one direction per entry, so that the distances are integers
        dirs = [rng.choice(units) for _ in range(d * d)]
        top = rng.choice([1, 2, 4])
        m = max(tries, 1) + 2
        coef = [[rng.randint(0, top) for _ in range(d * d)] for _ in range(m)]
        norm = [int(round((u[0] ** 2 + u[1] ** 2) ** .5)) for u in dirs]
        rhos = [[[k * u[0], k * u[1]] for k, u in zip(row, dirs)] for row in coef]
        kind = i % 3
        if kind == 0:                                  # a 1-Lipschitz objective
            c0 = [rng.randint(0, top) for _ in range(d * d)]
            vals = [-sum(n_ * abs(a - b) for n_, a, b in zip(norm, row, c0)) for row in coef]
        elif kind == 1:
            vals = [rng.randint(-12, 12) for _ in range(m)]
        else:                                          # values at the boundary of the condition
            vals = [sum(n_ * a for n_, a in zip(norm, row)) + rng.choice([0, 0, 1, -1]) for row in coef]
        cases.append({"case": "s%d.%d" % (i, kind), "rhos": rhos, "vals": vals, "numb": numb, "tries": tries,
                      "rank": rng.randint(1, d), "n": rng.randint(1, 3), "default": int(i % 10 == 0)})
    c.model("Sampler", "MC_Sampler.cfg", workers=8, expect_distinct=1000)
    c.traces("sampler", "SamplerTrace", cases)
