"""Fidelity estimation on devices: C27 (estimation), C28 (error correcting codes on devices)."""
from checks_codes import rng_for

CHECKS, ASSUMPTIONS = {}, {}


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


EPS = [(1, 1), (1, 2), (1, 4), (1, 8), (1, 16), (3, 10), (1, 10), (1, 20), (1, 3)]
CHANS = ["id", "x0", "z0", "h0", "xl", "cnot", "cz", "allx", "s0"]


def nlayers(n, p, q):
    lv = 0
    while p * 2 ** (n * lv) < q:
        lv += 1
    return 2 * lv + 1


def model(c):
    c.model("DeviceLife", "MC_DeviceLife_1.cfg", workers=8, expect_distinct=1000)
    c.model("DeviceLife", "MC_DeviceLife_2.cfg", workers=8, expect_distinct=1000)
    if not c.quick:
        c.model("DeviceLife", "MC_DeviceLife_2avg.cfg", workers=8, expect_distinct=100)


def calls_for(rng, n, count, code=False):
    out = []
    for _ in range(count):
        while True:
            p, q = rng.choice(EPS)
            if n * nlayers(n, p, q) <= 24:
                break
        ch = rng.choice([x for x in CHANS if n > 1 or x not in ("cnot", "cz")])
        call = {"chan": ch, "p": p, "q": q, "ntimes": rng.choice([1, 2, 3, 5, 5, 8] if not code or rng.random() < .7 else [10, 12, 17]),
                "cheat": 0 if code else rng.randint(0, 1)}
        if code:
            gs = ["id", "x0", "h0", "z0", "allx", "s0"] + (["cnot"] if n > 1 else [])
            call["enc"], call["dec"] = rng.choice(gs), rng.choice(gs)
        out.append(call)
    return out


@check("C27", "ProjectQ's simulator; up to 3 (4) qubits", "randomness of phases judged by occurrence and balance")
def c27(c):
    rng = rng_for(c)
    cases = []
    for i in range(40 if c.quick else 500):
        n = rng.choice([1, 2, 2, 3] if c.quick else [1, 2, 3, 4])
        cases.append({"case": "est%d" % i, "op": "est", "n": n, "via": "adaptor" if i % 2 else "channel",
                      "calls": calls_for(rng, n, rng.randint(1, 3))})
    for n, (p, q) in ((1, (1, 4)), (2, (1, 4)), (3, (1, 8)), (2, (1, 16)), (4, (1, 4)), (5, (1, 2))) + \
            (() if c.quick else ((6, (1, 1)), (4, (1, 20)), (5, (1, 33)))):
        cases.append({"case": "many%d.%d" % (n, q), "op": "est", "n": n, "via": "adaptor",
                      "calls": [{"chan": "x0", "p": p, "q": q, "ntimes": 90, "cheat": 0}]})
    for i in range(16 if c.quick else 160):
        n = rng.choice([1, 2, 2, 3] if c.quick else [1, 2, 3, 4])
        script, depth = [["zero", rng.randint(0, 1)]], 0
        for _ in range(rng.randint(3, 8)):
            k = rng.choice(["design", "design", "undo", "undo", "zero"])
            # ProjectQ releases qubits only in basis states: otherwise the wave function is set
            if k == "zero" and rng.random() < .5:
                g = rng.choice(["x0", "h0", "allx", "xl"])
                script, depth = script + [["gate", g], ["zero", 1 if depth or g == "h0" else rng.randint(0, 1)]], 0
            elif k == "design" and depth < 3:
                p, q = rng.choice([e for e in EPS if n * nlayers(n, *e) <= 18])
                script, depth = script + [["design", p, q]], depth + 1
            elif k == "undo" and depth:
                script, depth = script + [["undo"]], depth - 1
        cases.append({"case": "direct%d" % i, "op": "est", "n": n, "via": "adaptor",
                      "script": script + [["undo"]] * depth})
    model(c)
    c.traces("device", "DeviceTrace", cases)


@check("C28", "scripted measurement outcomes for the optimisation; ProjectQ's simulator otherwise")
def c28(c):
    rng = rng_for(c)
    cases = []
    for i in range(24 if c.quick else 300):
        n = rng.choice([1, 2, 2, 3])
        cases.append({"case": "code%d" % i, "op": "est", "n": n, "via": "code",
                      "calls": calls_for(rng, n, rng.randint(1, 2), True)})
    for i in range(24 if c.quick else 200):
        M, N = rng.choice([(1, 1), (2, 1), (1, 2), (1, 0), (0, 2), (2, 2), (3, 1), (5, 3), (2, 6)] if i % 4 == 0 else
                          [(1, 1), (2, 1), (1, 2), (1, 0), (0, 2), (2, 2), (3, 1)])
        bounds = []
        for _ in range(M + N):
            lo = rng.choice([-3, -1, 0, 1, 2])
            bounds.append([lo, lo + rng.choice([1, 2, 5])])
        cases.append({"case": "opt%d" % i, "op": "optimize", "n": rng.choice([1, 2]), "M": M, "N": N, "bounds": bounds,
                      "target": [rng.randint(lo * 4, hi * 4) / 4. for lo, hi in bounds], "ntimes": rng.choice([1, 3, 8]),
                      "maxiter": rng.choice([1, 2, 0] if M + N < 3 else [1, 2]), "bad": "",
                      "optimizer": rng.choice(["", "diffev"])})
    base = [x for x in cases if x["op"] == "optimize" and x["M"] == 1 and x["N"] == 1][0]
    for i, o in enumerate(("slsqp", "", "Diffev", "diff")):
        if o:
            cases.append(dict(base, case="badopt%d" % i, optimizer=o, bad="unknown_optimizer"))
    for i, b in enumerate(([[0, 1]], [[0, 1]] * 3, [])):
        cases.append(dict(base, case="badbounds%d" % i, bounds=b, target=[0] * len(b), optimizer="diffev",
                          bad="wrong_bounds"))
    model(c)
    c.traces("device", "DeviceTrace", cases)
