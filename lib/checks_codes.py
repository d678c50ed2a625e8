"""Stabilizer codes: C01-C12."""
import itertools
import random

import codecases as cc

CHECKS, ASSUMPTIONS = {}, {}
FORMS = ("array", "str", "list")


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


def rng_for(c):
    return random.Random("%s-%d" % (c.pid, c.seed))


def prefix(*ps):
    return lambda b: b["clause"].startswith(ps + ("trace.", "observe."))


def model_life(c):
    c.model("CodeLife", "MC_CodeLife_quick.cfg" if c.quick else "MC_CodeLife.cfg", workers=8,
            expect_distinct=1000)


def life_cases(rng, pool, per, steps, kinds, decode=None, anc=None, tag=""):
    cases = []
    for i, (name, n, k, rows) in enumerate(pool):
        for j in range(per):
            d = decode[(i + j) % len(decode)] if decode and k else None
            cases.append({"case": "%s%s.%d" % (tag, name, j), "n": n, "k": k, "gens": rows,
                          "form": FORMS[(i + j) % 3],
                          "script": cc.random_script(rng, n, k, rows, rng.randint(*steps), kinds, anc, d)})
    return cases


def generated(c, sizes, num):
    """Scripts generated by TLC from CodeGen, as life cases."""
    out = []
    for nk in sizes:
        for i, g in enumerate(c.generate("CodeGen", "CodeGen_%s.cfg" % nk, num, 16)):
            out.append(dict(g, case="tlc%s.%d" % (nk, i), form=FORMS[i % 3]))
    return out


def surroundings(rng, cases):
    """Registers whose qubits are not in the order of their allocation; other qubits in the same engine."""
    for case in cases:
        ops = case.get("script") or []
        if rng.random() < .4:
            case["order"] = rng.sample(range(case["n"]), case["n"])
        if rng.random() < .4 and case["n"] <= 6 and all(o[0] not in ("measure", "refuse") for o in ops):
            case["side"] = rng.choice([1, 1, 2])


def life(c, cases, keep=None):
    surroundings(random.Random("around-%s-%d" % (c.pid, c.seed)), cases)
    c.traces("life", "CodeTrace", cases, keep=keep)


def probe(name, strict=1, script=None, tag="probe"):
    n, k, rows = dict(cc.NAMED, **cc.BIG)[name]
    r = {"case": "%s.%s" % (tag, name), "n": n, "k": k, "gens": [cc.str_to_row(s) for s in rows],
         "form": "str", "strict": strict}
    if script:
        r["script"] = script
    return r


SMALL = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1), (5, 2), (5, 3), (6, 2)]
MEDIUM = [(7, 2), (8, 3), (8, 2), (9, 3), (7, 1), (8, 1), (9, 2), (8, 5)]


def medium(rng, count):
    """Codes on seven to nine qubits."""
    return [("M" + a, n, k, r) for a, n, k, r in cc.code_pool(rng, MEDIUM, count, named=False)]


def large(rng, count, sizes=((11, 1), (12, 2), (11, 3), (12, 1), (11, 2))):
    """Registers of eleven and twelve qubits, logical operators far apart."""
    out = []
    for i in range(count):
        n, k = sizes[i % len(sizes)]
        out.append(("L%d_%d_%d" % (n, k, i), n, k, cc.scrambled_code(rng, n, k, rng.choice([n, 2 * n, 4 * n]))))
    return out


WIDE = ((10, 6), (11, 7), (12, 9), (13, 9), (14, 10), (12, 7), (16, 12))


def wide(rng, count):
    """Many qubits and few generators."""
    return large(rng, count, WIDE)


# ---------------------------------------------------------------- construction
@check("C01", "ragged generator arrays and dependent generator sets are outside the property")
def c01(c):
    rng = rng_for(c)
    cases = []

    def add(rows, n, k, form, **kw):
        cases.append(dict({"case": "con%d" % len(cases), "op": "construct", "rows": rows, "n": n, "k": k,
                           "form": form}, **kw))
    # every pair of commuting/anticommuting generators on two and (thorough) three qubits
    for n, m in ((2, 1), (2, 2)) + (() if c.quick else ((3, 2),)):
        ps = [p for p in cc.all_paulis(n) if any(p)]
        for i, rows in enumerate(itertools.product(ps, repeat=m)):
            add([list(r) for r in rows], n, n - m, FORMS[i % 3])
    for i in range(300 if c.quick else 4000):
        n = rng.randint(2, 7)
        m = rng.randint(1, n)
        rows = cc.random_code(rng, n, n - m, cc.STYLES[i // 7 % len(cc.STYLES)])
        form = FORMS[i % 3]
        kind = i % 7
        if kind == 0:
            add(rows, n, n - m, form)
        elif kind in (1, 2):        # one generator replaced by something random
            rows[rng.randrange(m)] = cc.random_pauli(rng, n)
            add(rows, n, n - m, form)
        elif kind == 3:             # parameters that do not fit
            dn, dk = rng.choice([(1, 0), (0, 1), (0, -1), (1, 1), (-1, 0)])
            add(rows, n + dn, n - m + dk, form)
        elif kind == 4:             # exactly one anticommuting pair, at a chosen position
            a, b = sorted(rng.sample(range(m), 2)) if m > 1 else (0, 0)
            for t in range(200):
                q = cc.random_pauli(rng, n)
                if all(cc.commute(q, r) == (j != a) for j, r in enumerate(rows) if j != b):
                    rows[b] = q
                    break
            add(rows, n, n - m, form)
        elif kind == 5:             # one string longer or shorter than declared
            strs = [cc.row_to_str(r) for r in rows]
            j = rng.randrange(m)
            strs[j] = rng.choice([strs[j] + rng.choice("IXYZ"), strs[j] + rng.choice("IXYZ") * 2,
                                  rng.choice("IXYZ") + strs[j], strs[j][:-1], strs[j][1:]])
            add(rows, n, n - m, "str", badchar=1, strs=strs)
        else:
            strs = [cc.row_to_str(r) for r in rows]
            j = rng.randrange(m)
            q = rng.randrange(n)
            strs[j] = strs[j][:q] + rng.choice("AWxyz01 *") + strs[j][q + 1:]
            add(rows, n, n - m, "str", badchar=1, strs=strs)
    # binary rows with one or two columns too many or too few
    for i in range(24 if c.quick else 120):
        n = rng.randint(2, 6)
        m = (1, 1, 2, rng.randint(1, n))[i % 4]
        rows = cc.random_code(rng, n, n - m, "any")
        d = rng.choice([1, 1, -1, 2, -2])
        rows = [r + [rng.randint(0, 1) for _ in range(d)] if d > 0 else r[:d] for r in rows]
        add(rows, n, n - m, ("array", "list")[i % 2])
    # every position of a single anticommuting pair among up to eight generators
    for m in (3, 5, 8) if c.quick else range(2, 10):
        for n in (m, m + 1) if m < 8 else (m,):
            for a, b in itertools.combinations(range(m), 2):
                rows = spoiled(rng, n, m, a, b)
                add(rows, n, n - m, FORMS[(a + b) % 3])
    for i in range(24 if c.quick else 200):
        n = rng.randint(10, 20)
        m = rng.randint(3, min(n, 14))
        if i % 3:
            a, b = sorted(rng.sample(range(m), 2))
            rows = spoiled(rng, n, m, a, b)
        else:
            rows = cc.scrambled_code(rng, n, n - m)
        add(rows, n, n - m, FORMS[i % 3])
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("construct"))


def spoiled(rng, n, m, a, b):
    """m independent generators of which exactly the pair (a, b) anticommutes (Z_a becomes X_a Z_..)."""
    rows = []
    for j in range(m):
        r = [0] * (2 * n)
        r[n + j] = 1
        if j == b:
            r[a] = 1                    # anticommutes with Z_a only
        rows.append(r)
    # hide the structure: a random sequence of symplectic gates on the columns
    for _ in range(3 * n):
        q = rng.randrange(n)
        t = rng.randrange(3)
        if t == 0:
            for r in rows:
                r[q], r[n + q] = r[n + q], r[q]
        elif t == 1:
            for r in rows:
                r[n + q] ^= r[q]
        elif n > 1:
            w = rng.choice([x for x in range(n) if x != q])
            for r in rows:
                r[w] ^= r[q]
                r[n + q] ^= r[n + w]
    return rows


@check("C02", "generators have an even number of Ys (the library's Y is XZ)",
       "normal form may relabel qubits; cases that need the original labels are known findings")
def c02(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, [(3, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 3), (4, 2), (6, 1)],
                        150 if c.quick else 1500, big=True) + medium(rng, 56 if c.quick else 200)
    pool += wide(rng, 14 if c.quick else 70)
    cases = [{"case": "nf." + name, "n": n, "k": k, "gens": rows, "form": FORMS[i % 3]}
             for i, (name, n, k, rows) in enumerate(pool)]
    if not c.quick:
        for i, rows in enumerate(cc.all_codes(3, 1)):
            cases.append({"case": "all31.%d" % i, "n": 3, "k": 1, "gens": rows, "form": "array"})
    cases += [probe("bitflip3"), probe("phaseflip3"), probe("steane"), probe("shor"), probe("eightthree"),
              probe("fourtwo"), probe("five")]
    model_life(c)
    life(c, cases, prefix("build", "normalform"))


def with_user_logicals(rng, cases):
    """The same codes with logical operators supplied by the user: other representatives."""
    return [dict(c, case="u" + c["case"], alt=rng.randrange(10 ** 6)) for c in cases if c["k"]]


@check("C03", "generators have an even number of Ys",
       "logical operators are judged against the group generated by the normal form")
def c03(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, [(2, 1), (3, 1), (3, 2), (4, 1), (5, 1), (5, 2), (6, 2), (7, 3), (6, 4), (7, 1)],
                        150 if c.quick else 1500, big=True) + medium(rng, 56 if c.quick else 200)
    pool += wide(rng, 14 if c.quick else 70) + large(rng, 5 if c.quick else 40)
    cases = [{"case": "log." + name, "n": n, "k": k, "gens": rows, "form": FORMS[(i + 1) % 3]}
             for i, (name, n, k, rows) in enumerate(pool)]
    if not c.quick:
        for i, rows in enumerate(cc.all_codes(3, 1)):
            cases.append({"case": "all31.%d" % i, "n": 3, "k": 1, "gens": rows, "form": "list"})
    cases += with_user_logicals(rng, cases[::2])
    for i, (name, gens, lx, lz) in enumerate(USER):
        n = len(gens[0])
        cases.append({"case": "user." + name, "n": n, "k": len(lx), "gens": [cc.str_to_row(s) for s in gens],
                      "form": FORMS[i % 3],
                      "logicals": [[cc.str_to_row(s) for s in lx], [cc.str_to_row(s) for s in lz]]})
    cases += [probe("bitflip3"), probe("phaseflip3"), probe("steane"), probe("shor"), probe("eightthree"),
              probe("fourtwo"), probe("five")]
    model_life(c)
    life(c, cases, prefix("build.raised", "logical"))


# user supplied logical operators (LZ of Z type; LX the derived one up to the stabilizer group)
USER = [
    ("phase", ["XXI", "XIX"], ["XII"], ["ZZZ"]),
    ("bit", ["ZZI", "ZIZ"], ["XXX"], ["ZII"]),
    ("bit2", ["ZZI", "ZIZ"], ["XXX"], ["ZZZ"]),
    ("four", ["XXXX", "ZZZZ"], ["XIXI", "XXII"], ["ZZII", "ZIZI"]),
]


@check("C04", "generators have an even number of Ys; the encoder uses the given generators with + signs")
def c04(c):
    rng = rng_for(c)
    pool = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (3, 0), (4, 2), (4, 1), (3, 2), (5, 1)],
                                    30 if c.quick else 400) if p[1] <= (5 if c.quick else 6)]
    cases = [{"case": "enc.%s.%d" % (name, sp), "op": "encoder", "n": n, "k": k, "gens": rows,
              "form": FORMS[i % 3], "sparse": sp}
             for i, (name, n, k, rows) in enumerate(pool) for sp in (0, 1)]
    large = [(7, 1), (7, 0), (8, 2), (6, 0), (6, 4), (8, 1), (5, 3), (6, 3), (7, 4), (5, 4), (6, 5)]
    # code words spread over as many basis states as possible
    flat = [("flat%d_%d" % nk, nk[0], nk[1], cc.random_code(rng, nk[0], nk[1], "xrich"))
            for nk in ((7, 0), (8, 0), (7, 1), (8, 1), (6, 0))]
    flat.append(("plus8", 8, 0, [cc.str_to_row("I" * q + "X" + "I" * (7 - q)) for q in range(8)]))
    for i, (name, n, k, rows) in enumerate(flat + [("steane", 7, 1, [cc.str_to_row(x) for x in cc.NAMED["steane"][2]])]
                                           + cc.code_pool(rng, large, 11 if c.quick else 44, named=False)):
        for sp in (0, 1):
            cases.append({"case": "big.%s.%d" % (name, sp), "op": "encoder", "n": n, "k": k, "gens": rows,
                          "form": FORMS[i % 3], "sparse": sp})
    cases.append({"case": "probe.oddY", "op": "encoder", "n": 2, "k": 1, "gens": [cc.str_to_row("YI")],
                  "form": "str", "sparse": 0})
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("encoder"))


# -------------------------------------------------------------------- circuits
def all_bits_cases(rng, pool, tag):
    cases = []
    for i, (name, n, k, rows) in enumerate(pool):
        words = list(itertools.product((0, 1), repeat=k))
        if len(words) > 4:
            words = rng.sample(words, 4)
        for j, w in enumerate(words):
            script = [["encode", list(w), (i + j) % 2]]
            cases.append({"case": "%s%s.%d" % (tag, name, j), "n": n, "k": k, "gens": rows,
                          "form": FORMS[(i + j) % 3], "script": script})
    return cases


@check("C05", "register prepared in the all zero state; global phase not observable",
       "codeword judged against the group generated by the normal form")
def c05(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, SMALL + [(3, 0), (7, 3)], 90 if c.quick else 800, big=not c.quick)
    pool += medium(rng, 12 if c.quick else 80) + large(rng, 4 if c.quick else 30)
    cases = all_bits_cases(rng, pool, "e.")
    cases += with_user_logicals(rng, cases[::2])
    for i, (name, gens, lx, lz) in enumerate(USER[:3]):
        n = len(gens[0])
        for w in itertools.product((0, 1), repeat=len(lx)):
            cases.append({"case": "user.%s.%s" % (name, "".join(map(str, w))), "n": n, "k": len(lx),
                          "gens": [cc.str_to_row(s) for s in gens], "form": "str",
                          "logicals": [[cc.str_to_row(s) for s in lx], [cc.str_to_row(s) for s in lz]],
                          "script": [["encode", list(w), 0]]})
    model_life(c)
    life(c, cases, prefix("build.raised", "encode"))


@check("C06")
def c06(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, SMALL, 50 if c.quick else 400) + medium(rng, 8 if c.quick else 60)
    pool += large(rng, 2 if c.quick else 12)
    cases = []
    for i, (name, n, k, rows) in enumerate(pool):
        m = n - k
        for j in range(2 if c.quick else 6):
            s = [["encode", [rng.randint(0, 1) for _ in range(k)], (i + j) % 2]]
            errs = 1 + j % 2
            for _ in range(errs):
                e = cc.random_pauli(rng, n) if rng.random() < .5 else None
                if e is None:
                    e = [0] * (2 * n)
                    q, p = rng.randrange(n), rng.randint(1, 3)
                    e[q], e[n + q] = p & 1, p >> 1
                s.append(["pauli", e])
            # every generator of the working code, then again: the syndrome is stable
            order = [["nf", t] for t in range(m)]
            rng.shuffle(order)
            for t, w in enumerate(order + order[:1]):
                s.append(["measure", w, "str" if (t + j) % 2 else "array"])
            if (i // 2 + j) % 2:                # another error, everything measured again
                s.append(["pauli", cc.random_pauli(rng, n)])
                rng.shuffle(order)
                for t, w in enumerate(order):
                    s.append(["measure", w, "str" if rng.random() < .6 else "array"])
            cases.append({"case": "syn.%s.%d" % (name, j), "n": n, "k": k, "gens": rows,
                          "form": FORMS[(i + j) % 3], "script": s})
    cases += with_user_logicals(rng, cases[::3])
    for i, (name, n, k, rows) in enumerate(p for p in pool[:30] if p[1] <= 5):     # too many qubits in the engine
        s = [["encode", [0] * k, i % 2]] + [["refuse", rng.randrange(n - k), FORMS[i % 3]] for _ in range(2)]
        cases.append({"case": "many.%s" % name, "n": n, "k": k, "gens": rows, "form": "str", "script": s,
                      "side": 2 - i % 2 if i % 3 else 3})
    model_life(c)
    life(c, cases, prefix("build.raised", "encode.raised", "measure", "pauli"))


@check("C07", "the measured operators are Hermitian in the library's convention (even number of Ys)")
def c07(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, [(2, 1), (3, 1), (3, 0), (4, 2), (4, 1), (5, 1), (5, 2), (6, 2)],
                        50 if c.quick else 400) + medium(rng, 8 if c.quick else 60)
    cases = life_cases(rng, pool, 2 if c.quick else 4, (3, 8), ["gen", "nf", "measure", "measure", "mlog", "err1",
                                                              "logical", "stab"], None, tag="m.")
    cases += generated(c, ["21", "31"] if c.quick else ["21", "31", "30", "42"], 120 if c.quick else 600)
    model_life(c)
    life(c, cases, prefix("measure", "pauli", "encode.raised"))


@check("C08")
def c08(c):
    rng = rng_for(c)
    pool = [p for p in cc.code_pool(rng, SMALL + [(7, 3)], 50 if c.quick else 500, big=not c.quick) if p[2]]
    pool += medium(rng, 8 if c.quick else 60) + large(rng, 3 if c.quick else 20)
    cases = []
    for i, (name, n, k, rows) in enumerate(pool):
        for j in range(2):
            s = [["encode", [rng.randint(0, 1) for _ in range(k)], rng.randint(0, 1)]]
            if j:                               # Z and Y show in superpositions only
                s += [["measure", ["lx", q], "array"] for q in range(k) if rng.random() < .7]
            ops = [(p, q) for p in "XYZ" for q in range(k)]
            rng.shuffle(ops)
            for p, q in ops[:6] + [("YZ"[q % 2], q) for q in range(k)] * j:
                s.append(["logical", p, q])
                if rng.random() < .5:
                    s.append(["measure", [rng.choice(["lx", "lz"]), rng.randrange(k)], "array"])
                if rng.random() < .3:
                    s.append(["measure", ["nf", rng.randrange(n - k)], "array"])
            cases.append({"case": "lg.%s.%d" % (name, j), "n": n, "k": k, "gens": rows, "form": FORMS[(i + j) % 3],
                          "script": s})
    cases += with_user_logicals(rng, cases[::2])
    model_life(c)
    life(c, cases, prefix("logical_circuit", "measure", "encode.raised"))


@check("C09", "decoding is obliged only for registers inside the code space")
def c09(c):
    rng = rng_for(c)
    pool = [p for p in cc.code_pool(rng, SMALL, 50 if c.quick else 500, big=not c.quick) if p[2]]
    pool += medium(rng, 6 if c.quick else 40) + large(rng, 2 if c.quick else 12, ((10, 1), (11, 1), (10, 2)))
    dec = [(1, 0), (0, 0), (1, 1), (0, 1)]
    cases = life_cases(rng, pool, 2 if c.quick else 4, (0, 4), ["logical", "logical", "mlog", "nf"], dec, 0, tag="d.")
    cases += life_cases(rng, pool, 1, (0, 3), ["logical", "mlog"], [(1, 0), (1, 1)], 1, tag="a.")
    # every logical qubit on its own, and in superposition
    for i, (name, n, k, rows) in enumerate(p for p in pool if p[2] >= 3):
        for q in range(k):
            s = [["encode", [int(t == q) for t in range(k)], 0]]
            if q % 2:
                s.append(["measure", ["lx", (q + i) % k], "array"])
            cases.append({"case": "w.%s.%d" % (name, q), "n": n, "k": k, "gens": rows, "form": FORMS[i % 3],
                          "script": s + [["decode", (q + i) % 2, 0]]})
    cases += with_user_logicals(rng, cases[::2])
    cases += generated(c, ["21", "31"] if c.quick else ["21", "31", "42"], 200 if c.quick else 800)
    model_life(c)
    life(c, cases, prefix("decode", "encode.raised"))


@check("C10", "the applied strings are Paulis up to a global phase")
def c10(c):
    rng = rng_for(c)
    pool = cc.code_pool(rng, SMALL + [(3, 0)], 80 if c.quick else 500) + medium(rng, 10 if c.quick else 60)
    pool += large(rng, 2 if c.quick else 12)
    cases = life_cases(rng, pool, 2, (2, 6), ["stab", "stab", "stabany", "nf", "err1"], None, tag="s.")
    model_life(c)
    life(c, cases, prefix("stabilizer_circuit", "pauli", "measure", "encode.raised"))


# ------------------------------------------------------------ error correction
@check("C11")
def c11(c):
    rng = rng_for(c)
    pool = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (3, 2), (4, 2), (3, 0), (4, 1)], 16 if c.quick else 150)
            if p[1] <= (4 if c.quick else 5)]
    cases = [{"case": "nor." + name, "op": "normalizer", "n": n, "k": k, "gens": rows, "form": FORMS[i % 3]}
             for i, (name, n, k, rows) in enumerate(pool)]
    for i, (name, n, k, rows) in enumerate(cc.code_pool(rng, [(5, 1), (5, 0), (6, 0), (5, 2), (6, 1), (4, 3), (5, 3),
                                                              (5, 4), (6, 2)], 12 if c.quick else 50, named=False)):
        cases.append({"case": "big." + name, "op": "normalizer", "n": n, "k": k, "gens": rows, "form": FORMS[i % 3]})
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("normalizer", "undetectable", "genset"))


@check("C12", "inner codes whose derived logical operators belong to their given generators; "
              "the others are the known findings")
def c12(c):
    rng = rng_for(c)
    inner = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (4, 2), (3, 2), (5, 3)], 30 if c.quick else 120)
             if 0 < p[2]]
    outer = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (4, 2), (4, 1), (6, 4), (3, 0)], 16 if c.quick else 80)]
    # inner codes that tend to keep the order of their qubits and logical Xs with a Z part
    plain = [p for p in cc.code_pool(rng, [(3, 1), (4, 2), (3, 1), (5, 1), (4, 1)], 400 if c.quick else 900, False)
             if cc.standard_order(p[3]) and any(r[i] and r[p[1] + j] for r in p[3] for i in range(p[1])
                                                for j in range(p[1] - p[2], p[1]))]
    ys = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (4, 2), (2, 0), (3, 0), (4, 1)], 300, False)
          if any(r[i] and r[p[1] + i] for r in p[3] for i in range(p[1]))]
    cases = []
    want = 300 if c.quick else 2500
    named = [p for p in cc.code_pool(rng, [], 0) if p[2] and p[0] in
             ("bitflip3", "phaseflip3", "five", "fourtwo", "steane", "cat2", "bitflip3b", "fourtwocss", "sixfour")]
    pairs = [(o, i) for o in named for i in named] if not c.quick else \
        [(o, i) for o in named for i in named if o[1] * i[1] <= 24]
    rng.shuffle(pairs)
    while len(pairs) < want:
        pairs.append((rng.choice(outer + ys), rng.choice(inner + plain * 2)))
    for i, (o, n_) in enumerate(pairs):
        if o[1] * n_[1] // n_[2] > 14:          # the masks of the specification are 15 bit wide
            continue
        cases.append({"case": "cat.%s.%s.%d" % (o[0], n_[0], i), "op": "concat", "n1": o[1], "k1": o[2],
                      "gens1": o[3], "form": FORMS[i % 3], "n2": n_[1], "k2": n_[2], "gens2": n_[3],
                      "form2": FORMS[(i + 1) % 3]})
    # inner codes with logical operators supplied by the user: any conjugate pairs for the given generators
    for i in range(120 if c.quick else 1000):
        o, n_ = rng.choice(outer + ys + named), rng.choice(inner + plain + named)
        if o[1] * n_[1] // n_[2] > 14:
            continue
        cases.append({"case": "ucat.%s.%s.%d" % (o[0], n_[0], i), "op": "concat", "n1": o[1], "k1": o[2],
                      "gens1": o[3], "form": FORMS[i % 3], "n2": n_[1], "k2": n_[2], "gens2": n_[3],
                      "form2": FORMS[(i + 1) % 3], "logicals2": list(cc.random_logicals(rng, n_[3], n_[1], n_[2]))})
    cases.append({"case": "probe.shor_inner", "op": "concat", "n1": 2, "k1": 1, "gens1": [cc.str_to_row("ZZ")],
                  "form": "str", "n2": 9, "k2": 1, "gens2": [cc.str_to_row(s) for s in cc.BIG["shor"][2]],
                  "form2": "str", "strict": 1})
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("concat"))


@check("C13")
def c13(c):
    """recovery operators"""
    rng = rng_for(c)
    pool = [p for p in cc.code_pool(rng, [(2, 1), (3, 1), (3, 0), (4, 2), (3, 2), (5, 1), (4, 1)],
                                    40 if c.quick else 240) if p[1] <= 5]
    pool += cc.code_pool(rng, [(5, 3), (6, 4), (6, 1), (5, 4), (6, 3), (6, 2)], 6 if c.quick else 36, named=False)
    cases = []
    for i, (name, n, k, rows) in enumerate(pool):
        for j in range(2):
            errs = [cc.random_pauli(rng, n) for _ in range((3, 1, 5, 2, 8)[(i + j) % 5])]
            errs.insert(rng.randrange(len(errs) + 1), rng.choice(rows))
            cases.append({"case": "rec.%s.%d" % (name, j), "op": "recovery", "n": n, "k": k, "gens": rows,
                          "form": FORMS[i % 3], "fmt": ["dense", "csr", "coo", "csc"][(i + 2 * j + i // 4) % 4],
                          "errs": errs, "scale": [rng.choice([[1, 0], [2, 0], [0, 1], [-3, 0], [1, 2]])
                                                  for _ in errs],
                          "shift": [rng.choice([0, 0, 2, 9, 12, -4, 18, 24, 40]) for _ in errs]})
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("recovery"))


@check("C14")
def c14(c):
    """string / binary / matrix conversions and the symplectic product"""
    rng = rng_for(c)
    cases = []
    for n in (1, 2) if c.quick else (1, 2, 3):
        for r in cc.all_paulis(n):
            cases.append({"case": "conv%d" % len(cases), "op": "convert", "row": r, "n": n,
                          "form": FORMS[0] if len(cases) % 2 else "list"})
    for n in (1, 2):
        for r in cc.all_paulis(n):
            for q in cc.all_paulis(n):
                cases.append({"case": "inn%d" % len(cases), "op": "inner", "row": r, "row2": q})
    for i in range(80 if c.quick else 600):
        n = rng.randint(3, 5)
        cases.append({"case": "conv%d" % len(cases), "op": "convert", "row": cc.random_pauli(rng, n), "n": n,
                      "form": FORMS[0] if i % 2 else "list",
                      "extra": [cc.random_pauli(rng, n) for _ in range(i % 3)]})
        m = rng.randint(3, 20)
        cases.append({"case": "inn%d" % len(cases), "op": "inner", "row": cc.random_pauli(rng, m),
                      "row2": cc.random_pauli(rng, m)})
    for i in range(40 if c.quick else 200):
        n = rng.randint(6, 16)
        cases.append({"case": "conv%d" % len(cases), "op": "convert", "row": cc.random_pauli(rng, n), "n": n,
                      "form": FORMS[0] if i % 2 else "list", "nomat": 1,
                      "extra": [cc.random_pauli(rng, n) for _ in range(i % 4)]})
    for i in range(24 if c.quick else 100):
        n = 6 + i % 5
        cases.append({"case": "conv%d" % len(cases), "op": "convert", "row": cc.random_pauli(rng, n), "n": n,
                      "form": FORMS[0] if i % 2 else "list", "nomat": 2,
                      "extra": [cc.random_pauli(rng, n) for _ in range(i % 3)]})
    for row in cc.all_paulis(1):
        cases.append({"case": "one%d%d" % tuple(row), "op": "one", "row": row})
    for i in range(40 if c.quick else 200):
        n = rng.randint(1, 6)
        row = cc.random_pauli(rng, n)
        what = ("symbol", "bits", "index", "matrix", "flat")[i % 5]
        j = rng.randrange(n)
        case = {"case": "refuse%d" % i, "op": "refuse", "what": what, "row": row, "sparse": rng.randint(0, 1)}
        if what == "symbol":
            strs = ["".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(rng.randint(1, 3))]
            k = rng.randrange(len(strs))
            strs[k] = strs[k][:j] + rng.choice("AxyziW01 ") + strs[k][j + 1:]
            case["strs"] = strs
        elif what != "flat":
            bad = rng.choice([2, 3, -1])
            row[j], row[n + j] = rng.choice([(bad, 0), (0, bad)])
            if what == "index":
                case["row"] = [row[j], row[n + j]]
        cases.append(case)
    model_life(c)
    c.traces("alg", "CodeAlgTrace", cases, keep=prefix("convert", "inner"))
