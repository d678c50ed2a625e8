"""States and channels whose spectra are integers (over a common denominator), and optimisation cases."""
import chancases as ch


def trace(m):
    return [sum(m[i][i][t] for i in range(len(m))) for t in (0, 1)]


def charpoly(a):
    """Faddeev-LeVerrier; real integer coefficients of det(x - a) for Hermitian a."""
    n = len(a)
    m = ch.zeros(n, n)
    c = [1]
    for k in range(1, n + 1):
        m = ch.mm(a, m)
        for i in range(n):
            m[i][i] = [m[i][i][0] + c[-1], m[i][i][1]]
        am = ch.mm(a, m)
        t = trace(am)[0]
        assert t % k == 0
        c.append(-t // k)
    return c


def int_spectrum(a, top):
    """the eigenvalues, if they are all nonnegative integers, in decreasing order"""
    p = charpoly(a)
    res = []
    for r in range(top, -1, -1):
        while len(p) > 1:
            q = [p[0]]
            for v in p[1:]:
                q.append(v + q[-1] * r)
            if q[-1]:
                break
            res.append(r)
            p = q[:-1]
    return res if len(p) == 1 else None


LIMIT = {1: 256, 2: 256, 3: 256, 4: 200, 5: 60, 6: 30, 7: 18, 8: 13, 9: 9}


def apply(c, n, rho):
    ks = c["ks"]
    for _ in range(n - 1):
        ks = [ch.kron(a, b) for a in c["ks"] for b in ks]
    out = None
    for k in ks:
        p = ch.mm(ch.mm(k, rho), ch.dag(k))
        out = p if out is None else [[[x[t] + y[t] for t in (0, 1)] for x, y in zip(r, s)] for r, s in zip(out, p)]
    w = [[trace(ch.mm(ch.mm(a, rho), ch.dag(b))) for b in ks] for a in ks]
    return out, w


def spectra(c, n, rho, T):
    """(spectrum of the output, of the complementary output) or None"""
    M = c["D"] ** n * T
    do, K = ch.dout(c) ** n, len(c["ks"]) ** n
    if M > LIMIT.get(do, 0) or M > LIMIT.get(K, 0):
        return None
    out, w = apply(c, n, rho)
    s1 = int_spectrum(out, M)
    s2 = int_spectrum(w, M) if s1 else None
    return (s1, s2) if s1 and s2 else None


def is_diag(a):
    return all((v == [0, 0] if i != j else v[1] == 0) for i, r in enumerate(a) for j, v in enumerate(r))


def weak_spectra(c, rho, T):
    """Spectra of rare errors: diagonal matrices or two by two, larger denominators."""
    if c["D"] * T > 20000:
        return None
    res = []
    for a in apply(c, 1, rho):
        if is_diag(a):
            res.append(sorted((a[i][i][0] for i in range(len(a))), reverse=True))
        elif len(a) == 2:
            res.append(int_spectrum(a, c["D"] * T))
        else:
            return None
    return res if all(res) else None


def nearly_pure(rng, d):
    """a state with one large eigenvalue, on two levels rotated by a rational angle"""
    m = [0] * d
    a, b = rng.sample(range(d), 2)
    if rng.random() < .6 and d == 2:
        p, q = rng.choice([(100, 1), (400, 1), (700, 1)])
        x, y = rng.choice([(3, 4), (4, 3)])
        ph = rng.choice([[1, 0], [0, 1], [-1, 0]])
        off = x * y * (p - q)
        return [[[x * x * p + y * y * q, 0], [off * ph[0], off * ph[1]]],
                [[off * ph[0], -off * ph[1]], [y * y * p + x * x * q, 0]]], 25 * (p + q)
    big, small = rng.choice([500, 3000, 9000, 15000]), rng.choice([1, 1, 2])
    m[a], m[b] = big, small
    return [[[m[i] if i == j else 0, 0] for j in range(d)] for i in range(d)], big + small


def bell(signs=1):
    m = ch.zeros(4, 4)
    for i, j in ((0, 0), (0, 3), (3, 0), (3, 3)):
        m[i][j] = [1 if i == j else signs, 0]
    return m, 2


def identity(d):
    return [[[int(i == j), 0] for j in range(d)] for i in range(d)], d


def some_state(rng, d):
    w = rng.randrange(6)
    if w == 0:
        return identity(d)
    if w == 1:
        v = [rng.randint(0, 3) for _ in range(d)]
        if not any(v):
            v[0] = 1
        return [[[v[i] if i == j else 0, 0] for j in range(d)] for i in range(d)], sum(v)
    if w == 2 and d == 4:
        return bell(rng.choice([1, -1]))
    return ch.random_state(rng, d)


def find(rng, pool, n=1, tries=400):
    for _ in range(tries):
        c = rng.choice(pool)
        d = ch.din(c) ** n
        if d > 4 or len(c["ks"]) ** n > 9 or ch.dout(c) ** n > 9:
            continue
        rho, T = some_state(rng, d)
        s = spectra(c, n, rho, T)
        if s:
            return c, rho, T, s
    return None


def unitary(rng):
    w = rng.randrange(4)
    if w == 0:
        return ch.ch([[[[3, 0], [0, 4]], [[0, 4], [3, 0]]]], 25, 1, 1, 2, 2, "u34")
    if w == 1:
        return ch.ch([[[[1, 0], [1, 0]], [[0, 1], [0, -1]]]], 2, 1, 1, 2, 2, "uhs")
    if w == 2:
        return dict(ch.random_mixed_monomial(rng, 3, 1), name="u3")
    return dict(ch.random_mixed_monomial(rng, 2, 1, 2), name="u22")


def add_blocks(ms):
    return ms


def remix(rng, c):
    """other Kraus operators of the same map: a rational unitary mixes two of them"""
    ks = [k for k in c["ks"]]
    if len(ks) == 1:
        ks = ks + [ch.zeros(ch.dout(c), ch.din(c))]
    i, j = rng.sample(range(len(ks)), 2)
    a, b, s = rng.choice([(3, 4, 5), (4, 3, 5), (5, 12, 13), (1, 0, 1)])
    ph = rng.choice([[1, 0], [0, 1], [-1, 0]])

    def comb(x, A, y, B):
        return [[[x * u[t] + y * v[t] for t in (0, 1)] for u, v in zip(r, q)] for r, q in zip(A, B)]
    new = [ch.scaled(s, k) for k in ks]
    new[i], new[j] = comb(a, ks[i], b, ks[j]), comb(-b, ks[i], a, ks[j])
    new[i] = [[ch.gm(ph, v) for v in r] for r in new[i]]
    rng.shuffle(new)
    return new, c["D"] * s * s
