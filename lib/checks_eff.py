"""Codes over Pauli channels: C26 (effective channel), C29 (optimal decoder)."""
import itertools
import math

import codecases as cc
from checks_codes import rng_for
from checks_info import vec_for

CHECKS, ASSUMPTIONS = {}, {}
TIGHT = {"maxit": 40, "feastol": 1e-6, "abstol": 1e-6, "reltol": 1e-6}


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


def errors(rng, kb, blocks, maxwords, maxw=256, complex_ok=True, commuting=False):
    """weighted Pauli operators on kb qubits, small enough for `blocks` uses"""
    while True:
        m = rng.randint(2, 4)
        if m ** blocks > maxwords:
            m = max(2, int(round(maxwords ** (1. / blocks) - .499)))
        ops = set()
        if rng.random() < .8:
            ops.add((0,) * (2 * kb))
        while len(ops) < m:
            ops.add(tuple(rng.randint(0, 1) for _ in range(2 * kb)))
        ops = [list(o) for o in ops]
        if commuting and not all(cc.commute(a, b) for a in ops for b in ops):
            continue
        rng.shuffle(ops)
        ws = [rng.choice([1, 1, 2, 3, 5]) for _ in ops]
        if sum(ws) ** blocks > maxw:
            ws = [1] * len(ops)
            if sum(ws) ** blocks > maxw:
                continue
            if (sum(ws) + 1) ** blocks <= maxw:
                ws[rng.randrange(len(ws))] += 1
        if len(ops) ** blocks > maxwords:
            continue
        return [{"x": o[:kb], "z": o[kb:], "w": w, "ph": rng.choice(["", "", "i", "-"] if complex_ok else ["", "-"])}
                for o, w in zip(ops, ws)]


def twist(rng, kb, often=.5):
    """a Clifford gate for every qubit of a block, before the errors"""
    return [rng.choice(["S", "H", "SH", "S"]) if rng.random() < often else "I" for _ in range(kb)] \
        if rng.random() < .6 else ["I"] * kb


def model(c):
    c.model("EffLife", "MC_EffLife_211.cfg", workers=8, expect_distinct=900)
    if not c.quick:
        for m in ("212", "321", "311"):
            c.model("EffLife", "MC_EffLife_%s.cfg" % m, workers=8, expect_distinct=400)


@check("C26", "that the value is the global optimum is claimed only for channels where it is known to be the maximally "
       "mixed state", "codes with n a multiple of k")
def c26(c):
    rng = rng_for(c)
    cases = []
    sizes = [(2, 1), (3, 1), (4, 2), (4, 1), (5, 1), (6, 3)] + ([] if c.quick else [(6, 2), (6, 1), (7, 1)])
    pool = [p for p in cc.code_pool(rng, sizes, 30 if c.quick else 300) if p[2] and p[1] % p[2] == 0]
    if c.quick:
        pool = [p for p in pool if p[1] <= 6]
    for i, (name, n, k, rows) in enumerate(pool):
        for rep in range(2):
            commuting = rng.random() < .4
            errs = errors(rng, k, n // k, 32 if n > 4 else 40, commuting=commuting)
            tight = all(cc.commute(a["x"] + a["z"], b["x"] + b["z"]) for a in errs for b in errs)
            d = 2 ** k
            param = rng.choice(["overparam", "cholesky", "class"])
            best = [0] * (2 * d * d)
            if param == "cholesky":
                best = [10] * d + [0] * (d * d - d)
            else:
                for t in range(d):
                    best[2 * (t * d + t)] = 10
            lip = rng.choice([0, 0, 0, 2])
            mixed = 0 if lip and rep else 1
            samples = [vec_for(rng, param, d, d) for _ in range(rng.randint(0, 2) if not lip or mixed else 0)]
            if mixed:
                at = rng.randint(0, len(samples))
                samples.insert(at, best)
                mixed = at + 1
            cases.append({"case": "eff%d.%d.%s" % (i, rep, name), "op": "eff", "n": n, "k": k, "rows": rows, "errs": errs,
                          "twist": twist(rng, k),
                          "form": rng.choice(["str", "str", "array"]), "sparse": rng.randint(0, 1),
                          "param": param, "lipschitz": lip, "use_pool": 2 if i % 10 == 3 else 0,
                          "maxiter": rng.choice([1, 2, 5]) if d < 8 else 1, "samples": samples, "mixed": mixed,
                          "tight": int(tight), "optimize": rng.choice(["coherent", "default"])})
    # rare errors
    for i in range(12 if c.quick else 60):
        name, n, k, rows = rng.choice([p for p in pool if p[1] // p[2] <= 3 and p[1] <= 4])
        blocks = n // k
        ws = [rng.choice([60, 90, 120] if blocks == 2 else [15, 22])] + [rng.choice([1, 1, 2]) for _ in range(2)]
        ops = rng.sample([o for o in cc.all_paulis(k) if any(o)], 2)
        if rng.random() < .5:
            ops = [ops[0]]
        ops = [[0] * (2 * k)] + ops
        errs = [{"x": o[:k], "z": o[k:], "w": w, "ph": rng.choice(["", "i"])} for o, w in zip(ops, ws)]
        d = 2 ** k
        best = [0] * (2 * d * d)
        for t in range(d):
            best[2 * (t * d + t)] = 10
        cases.append({"case": "rare%d.%s" % (i, name), "op": "eff", "n": n, "k": k, "rows": rows, "errs": errs,
                      "twist": twist(rng, k), "form": "str", "sparse": i % 2, "param": "overparam", "lipschitz": 0,
                      "use_pool": 0, "maxiter": 1, "samples": [best], "mixed": 1,
                      "tight": int(all(cc.commute(a, b) for a in ops for b in ops)), "optimize": "coherent"})
    # refusals
    for i, (opt, kb) in enumerate([("entropy", 1), ("number", 1), ("Coherent", 1), ("coherent", 2), ("", 1),
                                   ("coherent", 3)]):
        rows = [[0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 1, 1]]
        cases.append({"case": "bad%d" % i, "op": "eff", "n": 3, "k": 1, "rows": rows, "kb": kb, "twist": ["I"] * kb,
                      "errs": [{"x": [0] * kb, "z": [0] * kb, "w": 1, "ph": ""},
                               {"x": [1] * kb, "z": [0] * kb, "w": 1, "ph": ""}], "form": "str", "sparse": i % 2,
                      "param": "overparam", "lipschitz": 0, "use_pool": 0, "maxiter": 1,
                      "samples": [vec_for(rng, "overparam", 2, 2)], "mixed": 0, "tight": 0, "optimize": opt,
                      "bad": opt + str(kb)})
    cases.append(dict(cases[0], case="probe.fidelity", optimize="fidelity", lipschitz=0, use_pool=0))
    model(c)
    c.traces("eff", "EffTrace", cases)


@check("C29", "solver tolerances as configured by the code (1e-3) or given in the options", "codes up to 3 (4) qubits")
def c29(c):
    rng = rng_for(c)
    cases = []
    sizes = [(2, 1), (2, 1), (2, 1), (3, 1)] if c.quick else [(2, 1), (3, 1), (3, 1)]
    pool = cc.code_pool(rng, sizes, 56 if c.quick else 150, named=False)
    pool += [(m, 3, 1, [cc.str_to_row(s) for s in cc.NAMED[m][2]]) for m in ("bitflip3", "phaseflip3")]
    if not c.quick:
        pool += [("fourtwo%d" % i, 4, 2, cc.random_code(rng, 4, 2)) for i in range(4)]
    for i, (name, n, k, rows) in enumerate(pool):
        errs = errors(rng, k, n // k, 64)
        cases.append({"case": "sdp%d.%s" % (i, name), "op": "sdp", "n": n, "k": k, "rows": rows, "errs": errs,
                      "twist": twist(rng, k, .9), "form": ["str", "array"][i % 2], "sparse": i // 2 % 2, 
                      "options": [{}, {"maxit": 25}] + ([TIGHT] if n == 2 else [])})
    model(c)
    c.traces("eff", "EffTrace", cases)
