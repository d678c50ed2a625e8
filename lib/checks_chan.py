"""Quantum channels: C15-C21, C23."""
import chancases as ch
from checks_codes import rng_for, prefix

CHECKS, ASSUMPTIONS = {}, {}


def check(pid, *assumptions):
    def deco(f):
        CHECKS[pid] = f
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


KRAUS = ("dense", "sparse", "adense", "asparse")
EXACT = "channels with Kraus operators A_k/sqrt(D), A_k over the Gaussian integers; results rounded to the " \
        "lattice they have to be on (tolerance 1e-6)"


def model(c):
    c.model("ChanLife", "MC_ChanLife_quick.cfg" if c.quick else "MC_ChanLife.cfg", workers=8, expect_distinct=100)


def run(c, cases, keep):
    model(c)
    rng = rng_for(c)
    for case in cases:                  # an earlier question again, with the same objects
        old = [op for op in case["script"] if op[0] in ("channel", "exch", "batch")]
        if old and len(case["script"]) > 2:
            case["script"].append(rng.choice(old))
    c.traces("chan", "ChanTrace", cases, keep=keep)


def ns(info, limit_d=8, limit_k=30, maxn=3):
    """numbers of uses for which the exact evaluation stays small"""
    return [n for n in range(1, maxn + 1)
            if ch.din(info) ** n <= limit_d and ch.dout(info) ** n <= 2 * limit_d
            and len(info["ks"]) ** n <= limit_k and info["D"] ** n <= 20000]


def rho_for(rng, d, n):
    kind = rng.randrange(3)
    dens = 1.0 if d <= 4 else 0.3
    if kind == 0:
        m, t = ch.random_state(rng, d) if d <= 4 else (ch.random_hermitian(rng, d, dens), 1)
        return m, t
    if kind == 1:
        return ch.random_hermitian(rng, d, dens), 1
    return ch.random_matrix(rng, d, dens), 1


def palette(rng, count):
    fixed = [ch.pauli_channel({"I": 2, "X": 1}), ch.pauli_channel({"I": 1, "Y": 1, "Z": 2}), ch.erasure(2, 1),
             ch.dephrasure(2, 1, 1), ch.damping(), ch.three_blocks(2, 1, 1), ch.embed(), ch.partial_trace(True),
             ch.partial_trace(False), ch.pauli_channel({"II": 2, "XZ": 1, "YY": 1}, 2)]
    res = fixed[:count]
    while len(res) < count:
        res.append(ch.random_channel(rng, 9 if len(res) % 3 == 0 else 4))
    for c in res:
        assert ch.is_tp(c), c["name"]
    return res


# --------------------------------------------------------------------- n uses
@check("C15", EXACT)
def c15(c):
    """whatever the history of numbers of uses, n uses are n uses"""
    rng = rng_for(c)
    cases = []
    for i, info in enumerate(palette(rng, 28 if c.quick else 200)):
        allowed = ns(info, 4 if c.quick and i % 4 else 8, maxn=4) or [1]
        for typ in KRAUS:
            s = [ch.new(info, typ, form=("list", "array")[i % 2] if typ != "asparse" else "list")]
            hist = [rng.choice(allowed) for _ in range(3 if c.quick else 5)]
            if len(allowed) > 1:
                hist[1] = rng.choice([n for n in allowed if n != hist[0]])
                hist[2] = rng.choice([n for n in allowed if n != hist[1]])
            for n in hist:
                d, do = ch.din(info) ** n, ch.dout(info) ** n
                w = rng.randrange(5)
                s.append(["props", 0, n])
                if w in (0, 4) and len(info["ks"]) ** n * d * do <= 1100:
                    s.append(["nth", 0, n])
                if w in (1, 4):
                    s.append(["exch", 0, n, 0] + list(rho_for(rng, d, n)))
                if w == 2:
                    m, t = rho_for(rng, do, n)
                    s.append(["channel", 0, n, 1, m, t])
                s.append(["channel", 0, n, 0] + list(rho_for(rng, d, n)))
            cases.append({"case": "h.%s.%d.%s" % (info["name"], i, typ), "script": s})
    cases += deep_cases(c, rng)
    run(c, cases, prefix("new.valid_rejected", "nth", "channel", "exchange", "props"))


def deep_cases(c, rng):
    """many uses, and fewer again"""
    cases = []
    for info in ch.deep_channels():
        # what stays cheap to evaluate in the specification
        size = max(ch.din(info), ch.dout(info)) * len(info["ks"])
        top = 6 if size <= 2 else 5
        for typ in KRAUS:
            for j in range(2 if c.quick else 8):
                hist = [rng.randint(1, 2), rng.randint(5, top), rng.randint(2, 4), 1, rng.randint(4, top)]
                if j == 0:
                    hist = [2, 5, 4, 3, top, 1]
                elif j > 1:
                    hist = [rng.randint(1, top) for _ in range(6)]
                s = [ch.new(info, typ)]
                for n in hist:
                    d, do = ch.din(info) ** n, ch.dout(info) ** n
                    s.append(["props", 0, n])
                    w = rng.randrange(4)
                    if w == 0 and d * do * len(info["ks"]) ** n <= 1100:
                        s.append(["nth", 0, n])
                    elif w == 1:
                        s.append(["channel", 0, n, 1, ch.few_entries(rng, do), 1])
                    elif w == 2 and len(info["ks"]) ** n <= 32:
                        s.append(["exch", 0, n, 0, ch.few_entries(rng, d), 1])
                    else:
                        s.append(["channel", 0, n, 0, ch.few_entries(rng, d), 1])
                cases.append({"case": "deep.%s.%s.%d" % (info["name"], typ, j), "script": s})
    return cases


@check("C16", EXACT)
def c16(c):
    """channel, adjoint, batches"""
    rng = rng_for(c)
    cases = []
    for i, info in enumerate(palette(rng, 36 if c.quick else 300) + ch.weak_channels()):
        allowed = ns(info, 4 if i % 3 else 8, maxn=3) or [1]
        for typ in KRAUS:
            s = [ch.new(info, typ)]
            for _ in range(3 if c.quick else 6):
                n = rng.choice(allowed)
                d, do = ch.din(info) ** n, ch.dout(info) ** n
                w = rng.randrange(4)
                if w == 0:
                    s.append(["channel", 0, n, 0] + list(rho_for(rng, d, n)))
                elif w == 1:
                    s.append(["channel", 0, n, 1] + list(rho_for(rng, do, n)))
                else:
                    dd = d if w == 2 else do
                    if dd <= 4:
                        s.append(["batch", 0, n, int(w == 3),
                                  [rho_for(rng, dd, n)[0] for _ in range(rng.randint(1, 3))]])
            cases.append({"case": "c.%s.%d.%s" % (info["name"], i, typ), "script": s})
    run(c, cases, prefix("new.valid_rejected", "channel"))


@check("C17", EXACT)
def c17(c):
    """complementary channel: values, blocks of orthogonal sets, adjoint"""
    rng = rng_for(c)
    cases = []
    orth = [ch.erasure(2, 1), ch.erasure(1, 3), ch.dephrasure(2, 1, 1), ch.dephrasure(1, 2, 1),
            ch.three_blocks(2, 1, 1), ch.three_blocks(1, 2, 3)]
    pool = orth + palette(rng, 24 if c.quick else 250) + ch.weak_channels()
    for i, info in enumerate(pool + ch.prep_orth() + orth[:2] + orth[4:5]):
        allowed = ns(info, 4 if i % 3 else 8, limit_k=27) or [1]
        if i >= len(pool):              # more uses
            allowed = [2, 3, 4] if len(info["ks"]) <= 4 and info["din"] == 1 else [2, 3] if len(info["ks"]) == 3 else [2]
        for typ in KRAUS:
            for with_orth in ((1, 0) if info["orth"] and typ in ("dense", "adense") else (0,)):
                s = [ch.new(info, typ, **({} if with_orth else {"orth": []}))]
                for _ in range(3 if c.quick else 5):
                    n = rng.choice(allowed)
                    d, K = ch.din(info) ** n, len(info["ks"]) ** n
                    if rng.random() < .3 and K <= 16:
                        om = ch.random_matrix(rng, K, 1.0 if K < 5 else .3)
                        s.append(["exch", 0, n, 1, om, 1])
                    else:
                        s.append(["exch", 0, n, 0] + list(rho_for(rng, d, n)))
                cases.append({"case": "x.%s.%d.%s.%d" % (info["name"], i, typ, with_orth), "script": s})
    run(c, cases, prefix("new.valid_rejected", "exchange"))


# --------------------------------------------------------------- concatenation
def compatible(rng, pool, a, kind):
    for _ in range(300):
        b = rng.choice(pool)
        if kind == "serial":
            if ch.din(a) == ch.dout(b) and len(a["ks"]) * len(b["ks"]) <= 12 and a["D"] * b["D"] <= 600:
                return b
        elif ch.din(a) * ch.din(b) <= 8 and ch.dout(a) * ch.dout(b) <= 9 and len(a["ks"]) * len(b["ks"]) <= 12 \
                and a["D"] * b["D"] <= 600:
            return b
    return None


def concat_cases(c, kind, count):
    rng = rng_for(c)
    pool = palette(rng, 60 if c.quick else 300)
    cases = []
    for i in range(count):
        typ = KRAUS[i % 4]
        a = pool[i // 4 % len(pool)]
        b = compatible(rng, pool, a, kind)
        if b is None:
            continue
        typ2 = typ
        if typ in ("adense", "asparse") and i % 3 == 0:             # dense and sparse together
            typ2 = "asparse" if typ == "adense" else "adense"
        keep = i % 5 == 1
        s = [ch.new(a if keep else dict(a, orth=[]), typ), ch.new(b if keep else dict(b, orth=[]), typ2)]
        for t, info in ((0, a), (1, b)):
            if rng.random() < .3 and 2 in ns(info, 4, limit_k=16, maxn=2):      # in use before
                s.append(["channel", t, 2, 0] + list(rho_for(rng, ch.din(info) ** 2, 2)))
        s.append([kind, 0, 1])
        if kind == "serial":
            r = ch.serial_info(a, b)
        else:
            r = dict(nin=1, nout=1, din=ch.din(a) * ch.din(b), dout=ch.dout(a) * ch.dout(b), D=a["D"] * b["D"],
                     K=len(a["ks"]) * len(b["ks"]))
        top = 2
        third = compatible(rng, pool, dict(r, ks=[0] * r["K"]), kind) if rng.random() < .4 else None
        if third is not None and r["K"] * len(third["ks"]) <= 16 and r["D"] * third["D"] < 2000:
            # associativity is exercised by going on with the result
            s += [ch.new(dict(third, orth=[]), typ), [kind, 2, 3]]
            if kind == "serial":
                r = dict(r, nin=third["nin"], din=third["din"], D=r["D"] * third["D"], K=r["K"] * len(third["ks"]))
            else:
                r = dict(r, din=r["din"] * ch.din(third), dout=r["dout"] * ch.dout(third), D=r["D"] * third["D"],
                         K=r["K"] * len(third["ks"]))
            top = 4
        fake = dict(r, ks=[0] * r["K"])
        allowed = ns(fake, 4, limit_k=16, maxn=2) or [1]
        hist = [1] + [rng.choice(allowed) for _ in range(2)]
        for n in hist:
            d, do = ch.din(r) ** n, ch.dout(r) ** n
            s.append(["props", top, n])
            s.append(["channel", top, n, 0] + list(rho_for(rng, d, n)))
            if rng.random() < .4:
                s.append(["channel", top, n, 1] + list(rho_for(rng, do, n)))
            if rng.random() < .4 and r["K"] ** n <= 16:
                s.append(["exch", top, n, 0] + list(rho_for(rng, d, n)))
        if r["K"] * ch.din(r) * ch.dout(r) <= 600:
            s.append(["nth", top, 1])
        # the operands still are what they were
        s.append(["channel", 0, 1, 0] + list(rho_for(rng, ch.din(a), 1)))
        s.append(["channel", 1, 1, 0] + list(rho_for(rng, ch.din(b), 1)))
        cases.append({"case": "%s.%s.%s.%d.%s" % (kind[0], a["name"], b["name"], i, typ), "script": s})
    return cases


@check("C18", EXACT)
def c18(c):
    run(c, concat_cases(c, "serial", 120 if c.quick else 1200) + mismatch_cases(c) + set_cases(c, "serial"),
        prefix("new.valid_rejected", "serial", "channel", "exchange", "nth", "props"))


def set_cases(c, kind):
    """sets of operators as lists, arrays and sparse arrays"""
    rng = rng_for(c)
    pool = [p for p in palette(rng, 40) if len(p["ks"]) <= 4]
    cases = []
    forms = {"dense": ("list", "array"), "sparse": ("list", "array", "coo")}
    for i in range(60 if c.quick else 400):
        a, b = rng.choice(pool), rng.choice(pool)
        if kind == "serial" and i % 4:
            a = rng.choice([p for p in pool if ch.din(p) == ch.dout(b)] or [a])
        if len(a["ks"]) * len(b["ks"]) * ch.din(a) * ch.din(b) * ch.dout(a) * ch.dout(b) > 3000:
            continue
        cls = ("dense", "sparse")[i % 2]
        cases.append({"case": "sets.%s.%d" % (cls, i), "script": [
            ["cat", kind, cls, a["ks"], b["ks"], rng.choice(forms[cls]), rng.choice(forms[cls])]]})
    return cases


def mismatch_cases(c):
    rng = rng_for(c)
    pool = palette(rng, 30)
    cases = []
    for i in range(40 if c.quick else 200):
        a, b = rng.choice(pool), rng.choice(pool)
        if ch.din(a) != ch.dout(b):
            typ = KRAUS[i % 4]
            cases.append({"case": "mm.%d" % i, "script": [ch.new(dict(a, orth=[]), typ), ch.new(dict(b, orth=[]), typ),
                                                         ["serial", 0, 1]]})
    return cases


@check("C19", EXACT)
def c19(c):
    run(c, concat_cases(c, "parallel", 120 if c.quick else 1200) + set_cases(c, "parallel"),
        prefix("new.valid_rejected", "parallel", "channel", "exchange", "nth", "props"))


# ------------------------------------------------------------------ validation
def transposition(d):
    """the partial-transpose map: trace preserving, not completely positive; orthogonal operators"""
    P = ch.PAULI
    return dict(ch.ch([P["I"], P["X"], P["Y"], P["Z"]], 2, 1, 1, 2, 2, "transpose"), sg=[1, 1, -1, 1])


def not_cp(rng, top=3):
    """sum_s w_s P_s rho P_s with a negative weight, total positive (unital trace preserving, not CP)"""
    while True:
        w = [rng.randint(0, 3) for _ in range(4)]
        sg = [1, 1, 1, 1]
        j = rng.randrange(4)
        w[(j + rng.randint(1, 3)) % 4] *= rng.randint(1, top // 3)
        sg[j] = -1
        D = sum(s * x * x for s, x in zip(sg, w))
        if w[j] and D > 0:
            ks = [ch.scaled(x, ch.PAULI[p]) for x, p in zip(w, "IXYZ") if x]
            return dict(ch.ch(ks, D, 1, 1, 2, 2, "notcp"), sg=[s for s, x in zip(sg, w) if x])


def unbalanced(rng, d, D, twisted=False):
    """Operators with sum A^dag A = D * identity plus something without trace (and, twisted, without sum)."""
    def ket(r, q, v=(1, 0)):
        return [[list(v) if (i, j) == (r, q) else [0, 0] for j in range(d)] for i in range(d)]
    if twisted:             # one vector times its conjugate: the off-diagonal entries are i and -i
        u = rng.choice([1, -1])
        ks = [[[[1, 0], [0, u]], [[0, 0], [0, 0]]], ket(0, 0), ket(1, 1)]
        return ch.ch(ks, 2, 1, 1, 2, 2, "twisted")
    times = [D] * d
    a, b = rng.sample(range(d), 2)
    times[a] += 1
    times[b] -= 1
    return ch.ch([ket(rng.randrange(d), q, rng.choice([(1, 0), (0, 1), (-1, 0)]))
                  for q in range(d) for _ in range(times[q])], D, 1, 1, d, d, "unbalanced")


@check("C20", EXACT, "Choi matrices that are not positive are built from orthogonal operators, so that the "
                     "negative weight is an eigenvalue")
def c20(c):
    rng = rng_for(c)
    cases = []

    def add(info, typ, **kw):
        cases.append({"case": "v%d.%s.%s" % (len(cases), info["name"], typ), "script": [ch.new(info, typ, **kw)]})
    types = KRAUS + ("choi", "achoi")
    close = [ch.pauli_channel({"I": 190, "Z": rng.randint(1, 4)}), ch.pauli_channel({"X": 70, "Y": 30, "Z": 1}),
             ch.erasure(120, 2), ch.erasure(3, 55), ch.damping((65, 63, 16)), ch.pauli_channel({"IX": 45, "ZY": 2}, 2)]
    for i, info in enumerate(palette(rng, 40 if c.quick else 400) + ch.weak_channels() + close):
        small = dict(info, orth=[])
        for typ in types:
            add(small, typ)                                         # accepted
        typ = types[i % 6]
        if info["D"] > 40000:           # too close to the tolerance of the validation
            continue
        # one operator dropped, one doubled, a row changed: not trace preserving any more
        k = rng.randrange(len(info["ks"]))
        if len(info["ks"]) > 1:
            add(dict(small, ks=info["ks"][:k] + info["ks"][k + 1:]), typ)
            add(dict(small, ks=info["ks"][:k] + info["ks"][k + 1:]), types[(i + 3) % 6])
        worse = [[list(r) for r in m] for m in info["ks"]]
        r, q = rng.randrange(ch.dout(info)), rng.randrange(ch.din(info))
        worse[k][r][q] = [worse[k][r][q][0] + 1, worse[k][r][q][1]]
        add(dict(small, ks=worse), types[(i + 1) % 6])
        add(dict(small, ks=worse), types[(i + 4) % 6])
        add(dict(small, D=info["D"] + 1), types[(i + 2) % 6])
        add(dict(small, D=info["D"] + 1), types[(i + 5) % 6])
        # only an off-diagonal entry of the trace condition is wrong
        if ch.din(info) == 2 and ch.dout(info) == 2:
            add(dict(small, ks=[[[[1, 0], [1, 0]], [[0, 0], [0, 0]]], [[[0, 0], [0, 0]], [[1, 0], [1, 0]]],
                                [[[1, 0], [0, 0]], [[0, 0], [1, 0]]]], D=3, nin=1, nout=1, din=2, dout=2), typ)
        # deviations that cancel: the wrong columns or entries average to a trace preserving map
        if i % 2 == 0:
            add(unbalanced(rng, rng.choice([2, 3, 4]), rng.choice([1, 2, 3])), types[i // 2 % 6])
            add(unbalanced(rng, 2, 2, True), types[(i // 2 + 3) % 6])
        # declared shapes that do not fit
        for what in ("nin", "nout", "ddin", "ddout"):
            t2 = types[rng.randrange(4)]
            if what == "nin":
                kw = dict(declare=[info["nin"] + 1, info["nout"]])
            elif what == "nout":
                kw = dict(declare=[info["nin"], info["nout"] + 1])
            elif what == "ddin":
                kw = dict(ddin=info["din"] + 1)
            else:
                kw = dict(ddout=info["dout"] + 1)
            add(small, t2, mismatch=1, **kw)
            if i % 2:
                add(small, ("choi", "achoi")[i // 2 % 2], mismatch=1, **kw)
    # many operators: every one is repeated m times; then one of them is spoiled or missing
    for i, info in enumerate(palette(rng, 12 if c.quick else 80)):
        m = rng.choice([3, 5, 9, 17, 33])
        if len(info["ks"]) * m > 70 or info["D"] * m > 40000 or ch.din(info) * ch.dout(info) > 16:
            continue
        many = dict(info, orth=[], ks=info["ks"] * m, D=info["D"] * m, name=info["name"] + "x%d" % m)
        for j, typ in enumerate(types):
            if len(many["ks"]) < 20 or j % 2 == i % 2:
                add(many, typ)
        k = rng.choice([len(many["ks"]) - 1, rng.randrange(len(many["ks"]))])
        worse = [[list(r) for r in a] for a in many["ks"]]
        r, q = rng.randrange(ch.dout(info)), rng.randrange(ch.din(info))
        worse[k][r][q] = [worse[k][r][q][0] + 5, worse[k][r][q][1]]
        for typ in (types[i % 4], types[(i + 2) % 4]):
            add(dict(many, ks=worse), typ)
            if many["D"] < 4000 and any(v != [0, 0] for row in many["ks"][-1] for v in row):
                add(dict(many, ks=many["ks"][:-1]), typ)
    # operators of every size against every declared number and dimension of particles
    for dim, q in ((2, 2), (2, 3), (3, 2), (2, 1), (4, 1)):
        for size in range(1, dim ** q + 3):
            def entry(i, j):
                return [1, 0] if i == j else [0, 0]
            eye = [[entry(i, j) for j in range(size)] for i in range(size)]
            for shape, ks, nin, nout, din, dout in (
                    ("square", [eye], q, q, dim, dim),
                    ("tall", [[[entry(i, 0)] for i in range(size)]], 1, q, 1, dim),
                    ("wide", [[eye[i]] for i in range(size)], q, 1, dim, 1)):
                info = ch.ch(ks, 1, nin, nout, din, dout, "%s%d_%d_%d" % (shape, dim, q, size))
                for typ in (KRAUS if c.quick == 0 else (KRAUS[size % 4], KRAUS[(size + 1) % 4])):
                    add(info, typ, mismatch=int(size != dim ** q))
    for i in range(20 if c.quick else 100):
        add(not_cp(rng, (3, 30, 300)[i % 3]), ("choi", "achoi")[i % 2])
    add(transposition(2), "choi")
    add(transposition(2), "achoi")
    run(c, cases, prefix("new"))


# ------------------------------------------------------------------------ Choi
@check("C21", EXACT)
def c21(c):
    rng = rng_for(c)
    cases = []
    for i, info in enumerate(palette(rng, 60 if c.quick else 500) + ch.weak_channels()):
        for typ in ("choi", "achoi"):
            d, do = ch.din(info), ch.dout(info)
            s = [ch.new(info, typ), ["props", 0, 1], ["kraus", 0, 1]]
            if typ == "choi":
                s.append(["ptrace", 0, 1, info["nin"], info["nout"], info["din"], info["dout"]])
            for _ in range(2):
                s.append(["channel", 0, 1, 0] + list(rho_for(rng, d, 1)))
            if typ == "choi" and d <= 4 and info["D"] < 1000:
                while True:
                    b = ch.random_state(rng, d)[0]
                    for j in range(d):                      # not singular, so that its square has a stable root
                        b[j][j] = [b[j][j][0] + 1, 0]
                    sq = ch.mm(b, b)
                    t = sum(sq[j][j][0] for j in range(d))
                    if t < 400:
                        break
                s.append(["comp", 0, 1, b, t])
            if typ == "achoi":
                s.append(["channel", 0, 1, 1] + list(rho_for(rng, do, 1)))
                s.append(["choi_n", 0, rng.choice([2, 3]), ch.random_matrix(rng, d)])
            cases.append({"case": "j.%s.%d.%s" % (info["name"], i, typ), "script": s})
    run(c, cases, prefix("new.valid_rejected", "choi", "channel", "kraus", "props", "complementary"))
