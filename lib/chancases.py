"""Integer channels (sum A^dag A = D I over the Gaussian integers), states and call scripts."""
import itertools

G = lambda re, im=0: [re, im]  # noqa: E731


def zeros(r, c):
    return [[G(0) for _ in range(c)] for _ in range(r)]


def scaled(k, m):
    return [[[k * v[0], k * v[1]] for v in r] for r in m]


def gm(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def kron(a, b):
    return [[gm(x, y) for x in ra for y in rb] for ra in a for rb in b]


def mm(a, b):
    return [[[sum(gm(a[i][k], b[k][j])[t] for k in range(len(b))) for t in (0, 1)]
             for j in range(len(b[0]))] for i in range(len(a))]


def dag(a):
    return [[[a[i][j][0], -a[i][j][1]] for i in range(len(a))] for j in range(len(a[0]))]


PAULI = {"I": [[G(1), G(0)], [G(0), G(1)]], "X": [[G(0), G(1)], [G(1), G(0)]],
         "Y": [[G(0), G(0, -1)], [G(0, 1), G(0)]], "Z": [[G(1), G(0)], [G(0), G(-1)]]}


def ch(ks, D, nin, nout, din, dout, name, orth=()):
    return dict(ks=ks, D=D, nin=nin, nout=nout, din=din, dout=dout, name=name, orth=list(orth))


def pauli_channel(w, qubits=1, name="pauli"):
    """w: {string: integer weight}."""
    ks = []
    for s, c in w.items():
        m = [[G(1)]]
        for q in s:
            m = kron(m, PAULI[q])
        ks.append(scaled(c, m))
    return ch(ks, sum(c * c for c in w.values()), qubits, qubits, 2, 2, name)


def erasure(a, b):
    k0 = [[G(a), G(0)], [G(0), G(a)], [G(0), G(0)]]
    k1 = [[G(0), G(0)], [G(0), G(0)], [G(b), G(0)]]
    k2 = [[G(0), G(0)], [G(0), G(0)], [G(0), G(b)]]
    return ch([k0, k1, k2], a * a + b * b, 1, 1, 2, 3, "erasure", (1,))


def dephrasure(a, b, c):
    k0 = [[G(a), G(0)], [G(0), G(a)], [G(0), G(0)]]
    k1 = [[G(b), G(0)], [G(0), G(-b)], [G(0), G(0)]]
    k2 = [[G(0), G(0)], [G(0), G(0)], [G(c), G(0)]]
    k3 = [[G(0), G(0)], [G(0), G(0)], [G(0), G(c)]]
    return ch([k0, k1, k2, k3], a * a + b * b + c * c, 1, 1, 2, 3, "dephrasure", (2,))


def three_blocks(a, b, c):
    """2 -> 4 (one particle of dimension 4): orthogonal sets of sizes 1, 2 and 1."""
    def up(m, r0):
        z = zeros(4, 2)
        for i, r in enumerate(m):
            z[r0 + i] = r
        return z
    k0 = up([[G(a), G(0)], [G(0), G(a)]], 0)
    k1 = up([[G(b), G(0)]], 2)
    k2 = up([[G(0), G(b)]], 2)
    k3a = up([[G(c), G(0)]], 3)
    k3b = up([[G(0), G(0, c)]], 3)
    return ch([k0, k1, k2, k3a, k3b], a * a + b * b + c * c, 1, 1, 2, 4, "threeblocks", (1, 3))


def damping(t=(5, 3, 4)):
    a, b, c = t
    return ch([[[G(a), G(0)], [G(0), G(b)]], [[G(0), G(c)], [G(0), G(0)]]], a * a, 1, 1, 2, 2, "damping")


def random_qubit_in(rng, kraus, nout, dout, big=1):
    """A random channel from one qubit: two orthogonal integer columns, cut into Kraus operators."""
    kraus += (kraus * dout ** nout) % 2          # the rows come in orthogonal pairs
    rows_total = kraus * dout ** nout
    while True:
        rows = []
        for _ in range(rows_total // 2):
            u1 = [rng.randint(-big, big), rng.randint(-big, big)]
            u2 = [rng.randint(-big, big), rng.randint(-big, big)]
            rows.append([u1, [-u2[0], u2[1]]])
            rows.append([u2, [u1[0], -u1[1]]])
        D = sum(r[0][0] ** 2 + r[0][1] ** 2 for r in rows)
        if 0 < D <= 12:
            break
    rng.shuffle(rows)
    d = dout ** nout
    ks = [rows[i * d:(i + 1) * d] for i in range(kraus)]
    ks = [k for k in ks if any(v != [0, 0] for r in k for v in r)]
    return ch(ks, D, 1, nout, 2, dout, "rand2_%d_%d" % (dout, nout))


UNITS = [[1, 0], [-1, 0], [0, 1], [0, -1]]


def random_mixed_monomial(rng, d, kraus, nq=1):
    """sum of weighted monomial unitaries on nq particles of dimension d."""
    dim = d ** nq
    ks, D = [], 0
    for _ in range(kraus):
        c = rng.randint(1, 2)
        p = list(range(dim))
        rng.shuffle(p)
        m = zeros(dim, dim)
        for i, j in enumerate(p):
            u = rng.choice(UNITS)
            m[i][j] = [c * u[0], c * u[1]]
        ks.append(m)
        D += c * c
    return ch(ks, D, nq, nq, d, d, "mono%d_%d" % (d, nq))


def partial_trace(keep_first=True):
    """two qubits to one."""
    ks = []
    for i in range(2):
        m = zeros(2, 4)
        for j in range(2):
            m[j][2 * j + i if keep_first else 2 * i + j] = G(1)
        ks.append(m)
    return ch(ks, 1, 2, 1, 2, 2, "ptrace%d" % keep_first)


def embed():
    """isometry 1 -> 2 qubits with complex phases."""
    return ch([[[G(1), G(0)], [G(0), G(0, 1)], [G(0, 1), G(0)], [G(0), G(1)]]], 2, 1, 2, 2, 2, "embed")


def deep_channels():
    """Channels with so few operators or so small spaces that many uses stay cheap."""
    one = [[[G(1), G(0)], [G(0), G(0, 1)]]]
    had = [[[G(1), G(0, 1)], [G(0, 1), G(1)]]]
    prep = [[[G(1)], [G(0, 1)]]]
    noisy_prep = [[[G(1)], [G(1)]], [[G(1)], [G(0, -1)]]]
    trace = [[[G(1), G(0)]], [[G(0), G(1)]]]
    bit = [scaled(1, PAULI["I"]), scaled(1, PAULI["X"])]
    return [ch(one, 1, 1, 1, 2, 2, "phase"), ch(had, 2, 1, 1, 2, 2, "rootx"), ch(prep, 2, 1, 1, 1, 2, "prep"),
            ch(noisy_prep, 4, 1, 1, 1, 2, "noisyprep"), ch(trace, 1, 1, 1, 2, 1, "trace"),
            ch(bit, 2, 1, 1, 2, 2, "halfbit")]


def prep_orth():
    """Preparation of a mixed state of one particle: orthogonal operators in two and three groups."""
    def col(d, i, v=1):
        m = zeros(d, 1)
        m[i] = [G(*v) if isinstance(v, tuple) else G(v)]
        return m
    two = [col(3, 0, 2), col(3, 1), col(3, 2, (0, 2))]
    three = [col(4, 0), col(4, 1, (0, 1)), col(4, 2), col(4, 3, 2)]
    return [ch(two, 9, 1, 1, 1, 3, "preporth2", (1,)), ch(two, 9, 1, 1, 1, 3, "preporth3", (1, 2)),
            ch(three, 7, 1, 1, 1, 4, "preporth4", (1, 3))]


def few_entries(rng, d, count=2):
    m = zeros(d, d)
    for _ in range(count):
        m[rng.randrange(d)][rng.randrange(d)] = [rng.randint(1, 2), rng.randint(-2, 2)]
    return m


def weak_channels():
    """Rare errors: amplitudes 1/30, 1/100 and 1/300."""
    return [pauli_channel({"I": 30, "X": 1}, name="weak30"), pauli_channel({"I": 100, "Y": 1, "Z": 2}, name="weak100"),
            pauli_channel({"Z": 300, "X": 1, "I": 2}, name="weak300"), damping((25, 24, 7)), damping((41, 40, 9)),
            damping((221, 220, 21)), erasure(50, 1), dephrasure(200, 1, 2),
            pauli_channel({"II": 60, "XZ": 1, "YI": 1}, 2, "weak60")]


def relabelling(rng, nin, din, nout, dout, kraus):
    """|i> -> u_i |f(i)> of the output, |e(i)> of the environment; mixed with a second such map, and followed by a
    Hadamard on a two dimensional output."""
    d, do = din ** nin, dout ** nout
    ks, D = [], 0
    for _ in range(rng.randint(1, 2)):
        c = rng.randint(1, 2)
        slots = rng.sample([(f, e) for f in range(do) for e in range(kraus)], d)
        for e in range(kraus):
            m = zeros(do, d)
            for i, (f, g) in enumerate(slots):
                if g == e:
                    u = rng.choice(UNITS)
                    m[f][i] = [c * u[0], c * u[1]]
            if any(v != [0, 0] for r in m for v in r):
                ks.append(m)
        D += c * c
    if do == 2 and rng.random() < .5:
        h = [[G(1), G(1)], [G(0, 1), G(0, -1)]]
        ks, D = [mm(h, m) for m in ks], 2 * D
    return ch(ks, D, nin, nout, din, dout, "relabel%d_%d_%d_%d" % (nin, din, nout, dout))


SHAPES = [(1, 3, 1, 2, 2), (1, 3, 1, 2, 3), (1, 4, 1, 3, 2), (1, 3, 1, 4, 1), (1, 2, 1, 5, 1), (1, 4, 2, 2, 1),
          (2, 2, 1, 3, 2), (1, 4, 1, 2, 2), (1, 3, 2, 2, 1), (1, 2, 2, 3, 1), (2, 2, 1, 4, 1), (1, 2, 3, 2, 1),
          (3, 2, 1, 2, 4), (1, 5, 1, 3, 2), (2, 2, 2, 2, 2), (1, 6, 1, 6, 1), (1, 8, 3, 2, 1), (2, 3, 1, 3, 3)]


def random_channel(rng, maxin=4):
    t = rng.randrange(14)
    if t >= 11:
        return relabelling(rng, *rng.choice([s for s in SHAPES if s[1] ** s[0] <= maxin]))
    if t == 0:
        keys = rng.sample("IXYZ", rng.randint(2, 4))
        return pauli_channel({k: rng.randint(1, 3) for k in keys})
    if t == 1:
        return erasure(rng.randint(1, 3), rng.randint(1, 2))
    if t == 2:
        return dephrasure(rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2))
    if t == 3:
        return damping(rng.choice([(5, 3, 4), (5, 4, 3)]))
    if t in (4, 5):
        return random_qubit_in(rng, rng.choice([2, 2, 3, 4]), 1, rng.choice([2, 2, 4]))
    if t == 6:
        return random_qubit_in(rng, rng.choice([1, 2]), 2, 2)
    if t == 7 and maxin >= 3:
        return random_mixed_monomial(rng, 3, rng.randint(1, 3))
    if t == 8 and maxin >= 4:
        return random_mixed_monomial(rng, 2, rng.randint(1, 3), 2)
    if t == 9 and maxin >= 4:
        return partial_trace(rng.random() < .5)
    if t == 10:
        return embed()
    return random_qubit_in(rng, 2, 1, 2)


def din(c):
    return c["din"] ** c["nin"]


def dout(c):
    return c["dout"] ** c["nout"]


def is_tp(c):
    n = din(c)
    s = zeros(n, n)
    for k in c["ks"]:
        p = mm(dag(k), k)
        s = [[[s[i][j][t] + p[i][j][t] for t in (0, 1)] for j in range(n)] for i in range(n)]
    return all(s[i][j] == ([c["D"], 0] if i == j else [0, 0]) for i in range(n) for j in range(n))


def random_matrix(rng, d, dens=1.0, big=2):
    return [[[rng.randint(-big, big), rng.randint(-big, big)] if rng.random() < dens else [0, 0]
             for _ in range(d)] for _ in range(d)]


def random_hermitian(rng, d, dens=1.0, big=2):
    m = random_matrix(rng, d, dens, big)
    for i in range(d):
        m[i][i] = [rng.randint(-big, big), 0]
        for j in range(i):
            m[i][j] = [m[j][i][0], -m[j][i][1]]
    return m


def random_state(rng, d, big=1):
    """(integer positive matrix, its trace)."""
    while True:
        r = rng.randint(1, d)
        b = [[[rng.randint(-big, big), rng.randint(-big, big)] for _ in range(r)] for _ in range(d)]
        m = mm(b, dag(b))
        t = sum(m[i][i][0] for i in range(d))
        if 0 < t <= 40:
            return m, t


def random_psi(rng, d, big=2):
    while True:
        v = [[rng.randint(-big, big), rng.randint(-big, big)] for _ in range(d)]
        if any(x != [0, 0] for x in v):
            return v


def new(c, typ, form="list", **kw):
    o = dict(c, type=typ, form=form)
    if typ not in ("dense", "adense"):
        o["orth"] = []
    o.update(kw)
    return ["new", o]


def serial_info(a, b):
    return dict(nin=b["nin"], nout=a["nout"], din=b["din"], dout=a["dout"], D=a["D"] * b["D"],
                K=len(a["ks"]) * len(b["ks"]))
