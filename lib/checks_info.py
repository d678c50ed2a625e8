"""Entropy, coherent information, fidelity, optimisation: C22-C24."""
import math

import chancases as ch
import infocases as ic
from checks_chan import model, palette, EXACT
from checks_codes import rng_for, prefix

CHECKS, ASSUMPTIONS = {}, {}
OFF = 999983
TYPES = ["adense", "adense_plain", "asparse"]


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


def small_pool(rng, count):
    fixed = [ch.pauli_channel({"I": 1, "X": 1}), ch.pauli_channel({"I": 2, "Z": 1}),
             ch.pauli_channel({"I": 2, "X": 1, "Z": 1}), ch.pauli_channel({"I": 1, "X": 1, "Y": 1, "Z": 1}),
             ch.erasure(1, 1), ch.erasure(2, 1), ch.dephrasure(2, 1, 1), ch.three_blocks(1, 1, 1), ch.embed(),
             ch.damping(), ch.partial_trace(True), ch.partial_trace(False),
             ch.pauli_channel({"II": 2, "XZ": 1}, 2)]
    while len(fixed) < count:
        c = ch.random_channel(rng)
        if c["D"] <= 12:
            fixed.append(c)
    return fixed


@check("C22", EXACT, "entropic values compared within 0.00012 bit")
def c22(c):
    rng = rng_for(c)
    q = 1 if c.quick else 8
    pool = small_pool(rng, 40 * q)
    cases = []

    def add(op, name, **kw):
        cases.append(dict(kw, op=op, case="%s.%s.%d" % (op, name, len(cases))))
    # entropies of matrices with integer spectra, of blocks, with a cut off
    for i in range(60 * q):
        blocks, specs = [], []
        for _ in range(1 if i % 2 else rng.choice([1, 2, 3, 3, 5])):
            while True:
                m, _ = ic.some_state(rng, rng.randint(1, 4))
                s = ic.int_spectrum(m, sum(r[j][0] for j, r in enumerate(m)))
                if s:
                    break
            blocks.append(m)
            specs.append(s)
        M = sum(sum(s) for s in specs)
        add("entropy", "x", blocks=blocks, specs=specs, M=M, cutk=rng.choice([0, 0, 1, 2]),
            form="array" if i % 2 else "list", sparse=i // 2 % 2)
    for i in range(8 * q):       # minus the sum of k log k whatever the trace is
        m, specs = [], []
        d = rng.randint(2, 4)
        while True:
            m, _ = ic.some_state(rng, d)
            s = ic.int_spectrum(m, sum(r[j][0] for j, r in enumerate(m)))
            M = rng.choice([1, 2, 3])
            if s and sum(v * abs(math.log2(v / M)) for v in s if v) < 8 * M:
                break
        add("entropy", "trace", blocks=[m], specs=[s], M=M, cutk=0,
            form="array" if i % 2 else "list", sparse=i // 2 % 2)
    for i in range(20 * q):      # rare events: eigenvalues far below one per cent
        blocks, specs = [], []
        for j in range(1 if i % 2 else rng.randint(1, 3)):
            m, T = ic.nearly_pure(rng, rng.choice([2, 2, 3, 4]))
            blocks.append(m)
            specs.append(ic.int_spectrum(m, T) if len(m) == 2 and not ic.is_diag(m) else
                         sorted((m[r][r][0] for r in range(len(m))), reverse=True))
        M = sum(sum(s) for s in specs)
        if M > 20000:
            continue
        add("entropy", "rare", blocks=blocks, specs=specs, M=M, cutk=0, form="array" if len(blocks) == 1 else "list",
            sparse=i // 2 % 2)
    rare = [x for x in ch.weak_channels() if x["D"] <= 12000] + \
        [ch.pauli_channel({"I": 70, "Z": 1}, name="w70"), ch.pauli_channel({"X": 99, "Z": 1, "Y": 1}, name="w99"),
         ch.pauli_channel({"II": 50, "ZX": 1}, 2, "w50"), ch.erasure(2000, 1), ch.erasure(1, 2000)]
    count = 0
    for i in range(300 * q):
        if count >= 24 * q:
            break
        info = rng.choice(rare)
        d = ch.din(info)
        rho, T = ic.nearly_pure(rng, d) if rng.random() < .4 else ic.identity(d) if rng.random() < .5 else \
            ic.some_state(rng, d)
        s = ic.weak_spectra(info, rho, T)
        if s:
            count += 1
            add("coh", info["name"], chan=info, n=1, rho=rho, T=T, sout=s[0], sw=s[1], types=TYPES, reg=1, warm=[])
    # exactly known coherent informations; two uses of entangled and of product states
    for i in range(70 * q):
        n = 2 if i % 5 == 0 else 1
        f = ic.find(rng, pool, n)
        if f:
            info, rho, T, (s1, s2) = f
            add("coh", info["name"], chan=info, n=n, rho=rho, T=T, sout=s1, sw=s2, types=TYPES, reg=1,
                warm=[2, 1] if i % 3 == 0 and len(info["ks"]) <= 4 and ch.din(info) == 2 else [])
    for i in range(20 * q):
        f = ic.find(rng, pool)
        if f and ch.din(f[0]) == 2 and ch.dout(f[0]) <= 4 and len(f[0]["ks"]) <= 4:
            info, rho, T, (s1, s2) = f
            factors = [dict(rho=rho, T=T, sout=s1, sw=s2)]
            for _ in range(30):
                rho2, T2 = ic.some_state(rng, 2)
                s = ic.spectra(info, 1, rho2, T2)
                if s:
                    factors.append(dict(rho=rho2, T=T2, sout=s[0], sw=s[1]))
                    break
            add("prod", info["name"], chan=info, factors=factors, types=TYPES)
    for i in range(20 * q):
        info = rng.choice(pool)
        add("pure", info["name"], chan=info, psi=ch.random_psi(rng, ch.din(info)), types=TYPES)
    for i in range(16 * q):
        u = ic.unitary(rng)
        d = ch.din(u)
        while True:
            m, T = ic.some_state(rng, d)
            s = ic.int_spectrum(m, T)
            if s:
                break
        add("unitary", u["name"], chan=u, rho=m, T=T, srho=s, types=TYPES)
    # values that are not known exactly: any Kraus operators of one map agree; processing does not help
    big = palette(rng, 20 * q)
    for i in range(24 * q):
        info = rng.choice(big)
        ks2, D2 = ic.remix(rng, info)
        if D2 > 3000:
            continue
        m, T = ch.random_state(rng, ch.din(info))
        add("pair", info["name"], chan=info, ks2=ks2, D2=D2, rho=m, T=T, types=TYPES)
        for _ in range(50):
            b = rng.choice(big)
            if ch.din(b) == ch.dout(info):
                add("proc", info["name"], chan=info, chan2=b, rho=m, T=T)
                break
    cases.append(dict(case="probe.choi_coherent", op="coh", chan=ch.pauli_channel({"I": 1, "X": 1}), n=1,
                      rho=ic.identity(2)[0], T=2, sout=[2, 2], sw=[2, 2], types=["achoi"], reg=0))
    model(c)
    c.traces("info", "InfoTrace", cases, keep=prefix("witness", "entropy", "coherent"))


@check("C23", EXACT, "fidelity of mixed states decided for qubits, of pure states in every dimension")
def c23(c):
    rng = rng_for(c)
    q = 1 if c.quick else 8
    cases = []
    pool = palette(rng, 40 * q)
    types = ("adense", "asparse", "achoi")
    for i in range(60 * q):
        info = pool[i % len(pool)]
        if ch.din(info) != ch.dout(info):
            continue
        for typ in types:
            s = [ch.new(dict(info, orth=[]), typ)]
            for n in ((1, 2, 1) if typ != "achoi" and ch.din(info) == 2 and len(info["ks"]) <= 4 else (1,)):
                psi = ch.random_psi(rng, ch.din(info) ** n, 1 if n > 1 else 2)
                s.append(["fid", 0, n, psi])
            # ensembles
            states, probs = [], []
            m0, t0 = ch.random_state(rng, ch.din(info))
            for _ in range(rng.choice([1, 2, 3, 5])):
                while True:
                    m, t = ch.random_state(rng, ch.din(info))
                    if t == t0 or rng.random() < .02:
                        break
                if t == t0:
                    states.append(m)
                    probs.append(rng.randint(1, 4))
            if typ == "achoi" and states:
                s.append(["aef", 0, 1, probs, states, t0, sum(probs)])
            cases.append({"case": "f.%s.%d.%s" % (info["name"], i, typ), "script": s})
    # Kraus operators and states without off-diagonal elements (the others are the known finding)
    for i in range(20 * q):
        ks = [[[[rng.choice([1, 2, -1]), 0], [0, 0]], [[0, 0], [0, 0]]] for _ in range(2)]
        D = sum(k[0][0][0] ** 2 for k in ks)
        for k, k0 in zip(ks, rng.sample(ks, 2)):
            v = k0[0][0][0]
            k[1][1] = rng.choice([[v, 0], [0, v], [-v, 0]])
        info = ch.ch(ks, D, 1, 1, 2, 2, "diag")
        assert ch.is_tp(info)
        st = [[[[1 + j, 0], [0, 0]], [[0, 0], [3 - j, 0]]] for j in range(2)]
        for typ in ("adense", "dense"):
            cases.append({"case": "diag.%d.%s" % (i, typ),
                          "script": [ch.new(info, typ), ["aef", 0, 1, [1, 2], st, 4, 3]]})
    bit = ch.pauli_channel({"I": 2, "X": 1})
    half = [[[1, 0], [0, 0]], [[0, 0], [1, 0]]]
    for typ in ("adense", "asparse"):
        cases.append({"case": "probe.ensemble.%s" % typ, "script": [ch.new(bit, typ),
                                                                  ["aef", 0, 1, [1], [half], 2, 1]]})
    model(c)
    c.traces("chan", "ChanTrace", cases, keep=prefix("new.valid_rejected", "fidelity", "entanglement_fidelity"))
    mix = []
    qubit = [x for x in pool if ch.din(x) == 2 and ch.dout(x) == 2 and x["D"] <= 25]
    for i in range(60 * q):
        info = rng.choice(qubit)
        m, T = ch.random_state(rng, 2)
        if i % 4 == 0:
            m, T = ch.random_state(rng, 2, 2)
        if T > 12:
            continue
        mix.append({"case": "mix.%s.%d" % (info["name"], i), "op": "fidmix", "chan": info, "rho": m, "T": T,
                    "types": ["adense", "asparse", "achoi"]})
        if len(info["ks"]) <= 4:
            mix.append({"case": "fp.%s.%d" % (info["name"], i), "op": "fidprod", "chan": info,
                        "rhos": [list(ch.random_state(rng, 2)) for _ in range(1 + i % 2)],
                        "types": [["adense", "asparse"][i // 2 % 2]]})
    c.traces("info", "InfoTrace", mix, keep=prefix("fidelity"))


def h2(x):
    return 0. if x in (0, 1) else -x * math.log2(x) - (1 - x) * math.log2(1 - x)


def vec_for(rng, param, dim, rank, scale=10):
    if param == "cholesky":
        diag = [rng.randint(2, scale) for _ in range(rank)]
        nv = rank * (rank + 1) + 2 * (dim - rank) * rank - rank
        return diag + [rng.randint(-scale, scale) for _ in range(nv - rank)]
    while True:
        v = [rng.randint(-scale, scale) for _ in range(2 * rank * dim)]
        if any(v):
            return v


@check("C24", "the optimum is not claimed to be global; the reported value is",
       "values compared within 0.001; samples within the documented bounds")
def c24(c):
    rng = rng_for(c)
    cases = []
    pool = [(ch.pauli_channel({"I": 3, "Z": 1}), "dephasing"), (ch.pauli_channel({"I": 3, "X": 2}), "dephasing"),
            (ch.erasure(2, 1), "erasure"), (ch.erasure(1, 2), "erasure"), (ch.damping(), None),
            (ch.dephrasure(2, 1, 1), None), (ch.pauli_channel({"I": 3, "X": 1, "Y": 2, "Z": 1}), "pauli"),
            (ch.partial_trace(True), None), (ch.embed(), "isometry")]
    combos = []
    count = 90 if c.quick else 700
    for i in range(count):
        info, kind = pool[i % len(pool)]
        objective = "fidelity" if ch.din(info) == ch.dout(info) and rng.random() < .5 else "coherent"
        method = "diffev" if i % 5 == 3 else "slsqp"
        param = rng.choice(["overparam", "cholesky", "class"])
        typ = rng.choice(["adense", "asparse", "adense_plain"] + (["achoi"] if objective == "fidelity" else []))
        n = 2 if i % 7 == 3 and len(info["ks"]) <= 2 and ch.din(info) == 2 and method == "slsqp" \
            and typ != "achoi" else 1
        dim = ch.din(info) ** n
        rank = 1 if objective == "fidelity" else rng.choice([dim, dim, 1, max(1, dim - 1)])
        pool_n = 2 if method == "slsqp" and i % 6 == 2 else 0
        lip = rng.choice([0, 0, 2, 3]) if method == "slsqp" else 0
        ns_ = rng.randint(1, 4) if method == "slsqp" else rng.choice([0, 6, 8])
        if lip and rng.random() < .4:
            ns_ = 0
        if method == "diffev" and i % 2:
            lip = rng.choice([3, 6])            # differential evolution needs six members
            ns_ = rng.choice([3, 5]) if lip == 3 else rng.choice([0, 2])
        samples = [vec_for(rng, param, dim, rank) for _ in range(ns_)]
        scale = 10
        bound = OFF
        total = info["D"]
        w = {}
        if kind == "dephasing":
            p = 1. * sum(k[0][0][0] ** 2 for k in info["ks"][:1]) / total
            bound = n * (1 - h2(p)) if objective == "coherent" else math.sqrt(p ** n)
        elif kind == "erasure" and objective == "coherent":
            e = 1. * info["ks"][1][2][0][0] ** 2 / total
            bound = n * max(0., 1 - 2 * e)
        elif kind == "isometry":
            bound = 1. * n
        elif kind == "pauli" and objective == "fidelity" and n == 1:
            sq = [max(v[0] ** 2 + v[1] ** 2 for r in k for v in r) for k in info["ks"]]
            bound = math.sqrt((sq[0] + min(sq[1:])) / total)
        # the shared answer of every sample: the best one is known to be reachable
        reach = OFF
        if kind in ("dephasing", "erasure", "isometry") and objective == "coherent" and n == 1 and method == "slsqp" \
                and ns_ and rank == dim and (kind != "erasure" or bound > 0):
            # the maximally mixed state is optimal: give it among the samples
            best = ([0] * (2 * dim * dim))
            if param == "cholesky":
                best = [10] * dim + [0] * (dim * dim - dim)
            else:
                for t in range(dim):
                    best[2 * (t * dim + t)] = 10
            samples.insert(rng.randrange(len(samples) + 1), best)
            reach = int(round(bound * 1e5))
        cases.append({"case": "opt%d.%s.%s" % (i, info["name"], method), "op": "opt", "chan": info, "typ": typ, "n": n,
                      "objective": objective, "method": method, "param": param, "rank": rank, "samples": samples,
                      "scale": scale, "reg": int(objective == "coherent" and rng.random() < .3), "lipschitz": lip, "use_pool": pool_n,
                      "maxiter": rng.choice([1, 3, 20]) if method == "slsqp" else rng.choice([1, 2]),
                      "slack": 200, "bound": OFF if bound == OFF else int(round(bound * 1e5)), "reach": reach,
                      "warm": rng.choice([[], [], [2], [2, 1]]) if ch.din(info) == 2 and len(info["ks"]) <= 3 and
                      typ != "achoi" else []})
    for i in range(12 if c.quick else 60):       # many samples: wherever the best one is, it is used
        info, kind = pool[i % 4]
        dim = 2
        param = ("overparam", "cholesky", "class")[i % 3]
        p = 1. * sum(k[0][0][0] ** 2 for k in info["ks"][:1]) / info["D"]
        best = [10, 10, 0, 0] if param == "cholesky" else [10, 0, 0, 0, 0, 0, 10, 0]
        bound = 1 - h2(p) if kind == "dephasing" else max(0., 1 - 2. * info["ks"][1][2][0][0] ** 2 / info["D"])
        samples = [[10 - j % 2, j % 2] + [0] * 2 if param == "cholesky" else [10, 0, j % 3, 0, 0, 0, 0, 0]
                   for j in range(rng.choice([9, 11, 14, 20, 40]))]
        samples.insert((0, len(samples), len(samples) // 2)[i // 4 % 3], best)
        cases.append({"case": "many%d.%s" % (i, info["name"]), "op": "opt", "chan": info,
                      "typ": ("adense", "asparse")[i % 2], "n": 1, "objective": "coherent", "method": "slsqp",
                      "param": param, "rank": 2, "samples": samples, "scale": 10, "reg": 0, "lipschitz": 0,
                      "use_pool": 2 if i % 5 == 4 else 0, "maxiter": 1, "slack": 200,
                      "bound": int(round(bound * 1e5)), "reach": int(round(bound * 1e5)), "warm": []})
    for i in range(20):
        bad = ["optimizer", "optimizer2", "param", "param2", "param3", "nosamples", "lipschitz", "lipschitz2", "pool",
               "pool2"][i % 10]
        cases.append({"case": "bad%d.%s" % (i, bad), "op": "opt", "bad": bad, "chan": pool[i % 4][0], "n": 1,
                      "typ": "adense", "objective": "fidelity" if i % 4 < 2 and i % 2 else "coherent",
                      "method": ("slsqp", "diffev")[i // 10], "param": "overparam", "rank": 1, "scale": 10,
                      "samples": [vec_for(rng, "overparam", 2, 1) for _ in range(6)], "lipschitz": 0, "use_pool": 0,
                      "maxiter": 1})
    model(c)
    c.traces("info", "InfoTrace", cases, keep=prefix("optimize"))
