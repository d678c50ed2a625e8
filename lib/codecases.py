"""Stabilizer codes and operation scripts to run the real code on (no repo import)."""
import itertools

NAMED = {
    "bitflip3": (3, 1, ["ZZI", "ZIZ"]),
    "bitflip3b": (3, 1, ["ZZI", "IZZ"]),
    "phaseflip3": (3, 1, ["XXI", "XIX"]),
    "phaseflip3b": (3, 1, ["XXI", "IXX"]),
    "yyy": (3, 1, ["YYI", "IYY"]),
    "five": (5, 1, ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]),
    "fourtwo": (4, 2, ["XZZX", "YXXY"]),
    "fourtwocss": (4, 2, ["XXXX", "ZZZZ"]),
    "steane": (7, 1, ["IIIXXXX", "IXXIIXX", "XIXIXIX", "IIIZZZZ", "IZZIIZZ", "ZIZIZIZ"]),
    "cat2": (2, 1, ["ZZ"]),
    "bell": (2, 0, ["XX", "ZZ"]),
    "ghz": (3, 0, ["XXX", "ZZI", "IZZ"]),
    "sixfour": (6, 4, ["XXXXXX", "ZZZZZZ"]),
    "realrank": (4, 1, ["XXII", "IXXI", "XIXX"]),     # X block, real rank = GF(2) rank
    "realrank3": (4, 1, ["XXIZ", "IXXZ", "XIXZ"]),    # X rows 110,011,101: dependent mod 2
}
BIG = {
    "shor": (9, 1, ["ZZIIIIIII", "ZIZIIIIII", "IIIZZIIII", "IIIZIZIII", "IIIIIIZZI", "IIIIIIZIZ",
                    "XXXXXXIII", "XXXIIIXXX"]),
    "eightthree": (8, 3, ["XXXXXXXX", "ZZZZZZZZ", "IXIXYZYZ", "IXZYIXZY", "IYXZXZIY"]),
}


def str_to_row(s):
    return [1 if c in "XY" else 0 for c in s] + [1 if c in "ZY" else 0 for c in s]


def row_to_str(row):
    n = len(row) // 2
    return "".join("IXZY"[row[i] + 2 * row[n + i]] for i in range(n))


def commute(a, b):
    n = len(a) // 2
    return sum(a[i] * b[n + i] + a[n + i] * b[i] for i in range(n)) % 2 == 0


def even_y(a):
    n = len(a) // 2
    return sum(a[i] * a[n + i] for i in range(n)) % 2 == 0


def rank(rows):
    rows = [int("".join(map(str, r)) or "0", 2) for r in rows]
    r = 0
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [q ^ p if q & low else q for q in rows]
    return r


def independent(rows):
    return rank(rows) == len(rows)


def standard_order(rows):
    """The leading columns carry the pivots: no relabelling of qubits is needed for the normal form."""
    n, m = len(rows[0]) // 2, len(rows)
    r = rank([x[:n] for x in rows])
    if rank([x[:r] for x in rows]) != r:
        return False
    # the Z-type subgroup must have full rank on the columns r..m-1
    rows = [list(x) for x in rows]
    done = []
    for c in range(r):
        i = next((i for i in range(len(rows)) if i not in done and rows[i][c]), None)
        if i is None:
            return False
        done.append(i)
        for j in range(len(rows)):
            if j != i and rows[j][c]:
                rows[j] = [(a + b) % 2 for a, b in zip(rows[j], rows[i])]
    z = [x[n:] for i, x in enumerate(rows) if i not in done]
    return not z or rank([x[r:m] for x in z]) == m - r


def valid(rows):
    return (all(even_y(r) for r in rows) and independent(rows)
            and all(commute(a, b) for a, b in itertools.combinations(rows, 2)))


def all_paulis(n):
    return [list(b) for b in itertools.product((0, 1), repeat=2 * n)]


def all_codes(n, k):
    ps = [p for p in all_paulis(n) if any(p) and even_y(p)]
    for rows in itertools.product(ps, repeat=n - k):
        if valid(list(rows)):
            yield [list(r) for r in rows]


def random_code(rng, n, k, style="any"):
    while True:
        rows = []
        tries = 0
        while len(rows) < n - k and tries < 20000:
            tries += 1
            if style == "css":
                r = [rng.randint(0, 1) for _ in range(n)]
                r = r + [0] * n if rng.random() < .5 else [0] * n + r
            elif style == "sparse":
                r = [0] * (2 * n)
                for q in rng.sample(range(n), min(n, rng.randint(1, 3))):
                    p = rng.randint(1, 3)
                    r[q], r[n + q] = p & 1, p >> 1
            elif style in ("zrich", "xrich"):     # nearly all generators of one type
                r = [rng.randint(0, 1) for _ in range(n)]
                few = rng.random() < .2
                if few and style == "zrich" and rng.random() < .5:
                    r = [rng.randint(0, 1) for _ in range(2 * n)]
                else:
                    r = [0] * n + r if (style == "zrich") != few else r + [0] * n
            elif style == "tail":            # the first qubits are hardly touched
                a = rng.choice([0, n // 2, n // 2, n - 2 if n > 2 else 0])
                t = rng.randrange(3)
                x = [rng.randint(0, 1) if q >= a else 0 for q in range(n)]
                z = [rng.randint(0, 1) if q >= a else 0 for q in range(n)]
                r = [0] * n + z if t == 0 else x + [0] * n if t == 1 else x + z
            elif style == "late":            # X parts only on late qubits: forces column swaps
                r = [rng.randint(0, 1) if q >= n // 2 else 0 for q in range(n)] + \
                    [rng.randint(0, 1) for _ in range(n)]
            else:
                r = [rng.randint(0, 1) for _ in range(2 * n)]
            if any(r) and even_y(r) and all(commute(r, q) for q in rows) and independent(rows + [r]):
                rows.append(r)
        if len(rows) == n - k:
            return rows


STYLES = ("any", "css", "sparse", "late", "zrich", "tail", "xrich")


def code_pool(rng, sizes, count, named=True, big=False):
    """(name, n, k, rows) - the named codes first, then random ones."""
    out = []
    if named:
        out += [(m, n, k, [str_to_row(s) for s in g]) for m, (n, k, g) in NAMED.items()]
    if big:
        out += [(m, n, k, [str_to_row(s) for s in g]) for m, (n, k, g) in BIG.items()]
    i = 0
    while i < count:
        n, k = sizes[i % len(sizes)]
        st = STYLES[(i // len(sizes)) % len(STYLES)]
        out.append(("r%d_%d_%s_%d" % (n, k, st, i), n, k, random_code(rng, n, k, st)))
        i += 1
    return out


def scrambled_code(rng, n, k, gates=None):
    """Z_1 .. Z_{n-k} after random Hadamard and CNOT gates (these keep the number of Ys even)."""
    rows = []
    for j in range(n - k):
        r = [0] * (2 * n)
        r[n + j] = 1
        rows.append(r)
    for _ in range(4 * n if gates is None else gates):
        q, w = rng.sample(range(n), 2)
        for r in rows:
            if _ % 2:
                r[q], r[n + q] = r[n + q], r[q]
            else:
                r[w] ^= r[q]
                r[n + q] ^= r[n + w]
    rng.shuffle(rows)
    return rows


def random_logicals(rng, rows, n, k):
    """k conjugate pairs of operators that commute with the rows, drawn at random"""
    stab = [list(r) for r in rows]
    while True:
        lx, lz = [], []
        while len(lx) < k:
            def draw():
                while True:
                    p = [rng.randint(0, 1) for _ in range(2 * n)]
                    # make it commute with the pairs found so far
                    for a, b in zip(lx, lz):
                        ca, cb = commute(p, a), commute(p, b)
                        if not ca:
                            p = [(u + v) % 2 for u, v in zip(p, b)]
                        if not cb:
                            p = [(u + v) % 2 for u, v in zip(p, a)]
                    if all(commute(p, r) for r in stab):
                        return p
            a, b = draw(), draw()
            if not commute(a, b):
                lx.append(a)
                lz.append(b)
        return lx, lz


def random_herm(rng, n):
    while True:
        r = [rng.randint(0, 1) for _ in range(2 * n)]
        if any(r) and even_y(r):
            return r


def random_pauli(rng, n):
    return [rng.randint(0, 1) for _ in range(2 * n)]


def random_script(rng, n, k, gens, steps, kinds, anc=None, decode=None):
    """encode, then `steps` operations drawn from kinds, then possibly decode."""
    s = [["encode", [rng.randint(0, 1) for _ in range(k)], rng.randint(0, 1) if anc is None else anc]]
    m = n - k
    for _ in range(steps):
        kind = rng.choice(kinds)
        form = rng.choice(["str", "array"])
        if kind == "logical" and k == 0:
            kind = "measure"
        if kind in ("gen", "nf", "stab") and m == 0:
            kind = "measure"
        if kind == "pauli":
            s.append(["pauli", random_pauli(rng, n)])
        elif kind == "err1":
            r = [0] * (2 * n)
            q, p = rng.randrange(n), rng.randint(1, 3)
            r[q], r[n + q] = p & 1, p >> 1
            s.append(["pauli", r])
        elif kind == "stab":
            s.append(["stab", rng.randrange(m), rng.choice(["str", "array", "list"])])
        elif kind == "stabany":
            s.append(["stab", random_pauli(rng, n), rng.choice(["str", "array", "list"])])
        elif kind == "logical":
            s.append(["logical", rng.choice("XYZ"), rng.randrange(k)])
        elif kind == "gen":
            s.append(["measure", ["gen", rng.randrange(m)], form])
        elif kind == "nf":
            s.append(["measure", ["nf", rng.randrange(m)], form])
        elif kind == "mlog" and k:
            s.append(["measure", [rng.choice(["lx", "lz"]), rng.randrange(k)], form])
        else:
            s.append(["measure", ["row", random_herm(rng, n)], form])
    if decode:
        s.append(["decode", decode[0], decode[1]])
    return s
