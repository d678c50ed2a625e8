"""Drive StabilizerCode through whole register life cycles on the ProjectQ simulator."""
import random
from collections import Counter

import numpy as np
from common import Guard, main, bits2, integer, OFF

from projectq import MainEngine
from projectq.ops import All, Measure, X as XG, Y as YG, Z as ZG
from PyQCodes.codes import StabilizerCode

guard = Guard(60)


def row_to_str(row):
    n = len(row) // 2
    return "".join("IXZY"[row[i] + 2 * row[n + i]] for i in range(n))


def group(rows, n):
    els = [tuple([0] * (2 * n))]
    for r in rows:
        els += [tuple((a + b) % 2 for a, b in zip(e, r)) for e in els]
    return els


def witness(given, nf, n):
    """perm with qubit j of nf = qubit perm[j] of the given code (identity if there is none)."""
    ident = list(range(n))
    if len(given) > 9:                  # too long; only the checks of circuits use such codes
        return ident
    try:
        if len(given) != len(nf) or any(len(r) != 2 * n for r in nf):
            return ident
        ga, gb = group(given, n), group(nf, n)
        if set(ga) == set(gb):
            return ident
        want = [Counter(tuple((e[i], e[n + i]) for i in range(t)) for e in gb) for t in range(n + 1)]
        work = [0]

        def go(perm):
            work[0] += 1
            if len(perm) == n or work[0] > 4000:
                return perm if len(perm) == n else None
            order = [len(perm)] + [q for q in range(n) if q != len(perm)]
            for q in order:
                if q in perm:
                    continue
                p2 = perm + [q]
                if Counter(tuple((e[i], e[n + i]) for i in p2) for e in ga) == want[len(p2)]:
                    r = go(p2)
                    if r:
                        return r
            return None
        return go([]) or ident
    except Exception:
        return ident


def vector(eng, qubits):
    """Amplitudes with qubits[0] as the most significant bit."""
    eng.flush()
    where, amp = eng.backend.cheat()
    amp = np.array(amp, dtype=complex)
    nq = len(where)
    pos = [where[q.id] for q in qubits]
    rest = [p for p in range(nq) if p not in pos]
    idx = np.arange(len(amp))
    full = np.zeros((2 ** len(pos), 2 ** len(rest)), dtype=complex)
    r = np.zeros(len(amp), dtype=int)
    for p in pos:
        r = 2 * r + ((idx >> p) & 1)
    c = np.zeros(len(amp), dtype=int)
    for p in rest:
        c = 2 * c + ((idx >> p) & 1)
    full[r, c] = amp
    return full


def codes_of(full):
    """Stabilizer amplitudes as 0..4; 9 for anything that is not one."""
    live = [c for c in range(full.shape[1]) if np.abs(full[:, c]).max() > 1e-5]
    if len(live) != 1:
        return [9] * full.shape[0]
    v = full[:, live[0]]
    m = np.abs(v).max()
    v = v / m
    first = v[np.argmax(np.abs(v) > 1e-5)]
    v = v / (first / abs(first))            # the global phase is not observable
    out = []
    for a in v:
        if abs(a) < 1e-5:
            out.append(0)
            continue
        for c, u in enumerate((1, 1j, -1, -1j)):
            if abs(a - u) < 1e-4:
                out.append(c + 1)
                break
        else:
            out.append(9)
    return out


def alternative(case, given, n, k):
    """Logical operators a user may supply: the derived ones times Z-type stabilizers."""
    base, exc = guard(StabilizerCode, given, n, k)
    if exc:
        return None
    rnd = random.Random(case["alt"])
    nf = bits2(base.normal_form)
    ztype = [r for r in nf if not any(r[:n])]
    out = []
    for which, rows in ((0, bits2(base.logical_x)), (1, bits2(base.logical_z))):
        new = []
        for row in rows:
            for z in ztype:
                if rnd.random() < .6:
                    row = [(a + b) % 2 for a, b in zip(row, z)]
            new.append(row)
        out.append(np.array(new))
    return out


def run_case(case, emit):
    n, k = case["n"], case["k"]
    rows = case["gens"]
    form = case.get("form", "array")
    given = {"str": [row_to_str(r) for r in rows], "list": [list(r) for r in rows],
             "array": np.array(rows)}[form]
    logical = None
    if case.get("logicals"):
        logical = [np.array(case["logicals"][0]), np.array(case["logicals"][1])]
    if case.get("alt") is not None:
        logical = alternative(case, given, n, k)
    code, exc = guard(StabilizerCode, given, n, k, logical)
    rec = dict(op="build", n=n, k=k, gens=rows, exc=exc, stab=[], got_n=-1, got_k=-1, nf=[], rank=-1,
               lx=[], lz=[], perm=list(range(n)), strict=case.get("strict", 0),
               ulx=[], ulz=[])
    if logical:
        rec.update(ulx=bits2(logical[0]), ulz=bits2(logical[1]))
    if not exc:
        rec.update(stab=bits2(code.stab_bin_rep), got_n=code.n, got_k=code.k,
                   nf=bits2(np.array([r for r in code])), rank=integer(code.rank),
                   lx=bits2(code.logical_x), lz=bits2(code.logical_z))
        rec["perm"] = witness(rows, rec["nf"], n)
    emit(**rec)
    if exc or not case.get("script"):
        return
    anc = 0
    eng = reg = None
    side = []                            # other qubits of the same engine, all in state one
    def look():
        other = [int(v) for v in np.abs(vector(eng, side)).max(axis=1) > 1e-5] if len(side) else []
        return dict(psi=codes_of(vector(eng, reg)), side=other)
    for op in case["script"]:
        kind = op[0]
        seen, exc = dict(psi=[], side=[]), ""
        if kind == "encode":
            anc = op[2]
            eng = MainEngine()
            first = case.get("side", 0)
            if first:
                side = list(eng.allocate_qureg(first))
                All(XG) | side
            qs = eng.allocate_qureg(n + anc)
            reg = [qs[p] for p in case.get("order", range(n))] + list(qs[n:])
            eng.flush()
            x = op[1]
            _, exc = guard(code.encoding_circuit, eng, reg[:n], list(x))
            rec = dict(op="encode", x=list(x), anc=anc)
        elif kind == "pauli":
            row = op[1]
            for i in range(n):
                if row[i] and row[n + i]:
                    YG | reg[i]
                elif row[i]:
                    XG | reg[i]
                elif row[n + i]:
                    ZG | reg[i]
            rec = dict(op="pauli", row=row, anc=anc)
        elif kind == "stab":
            row = rows[op[1]] if isinstance(op[1], int) else op[1]
            arg = row_to_str(row) if op[2] == "str" else np.array(row) if op[2] == "array" else list(row)
            _, exc = guard(code.apply_stabilizer_circuit, eng, reg[:n], arg)
            rec = dict(op="stab", row=row, anc=anc)
        elif kind == "logical":
            _, exc = guard(code.logical_circuit, eng, reg[:n], op[1] + str(op[2]))
            rec = dict(op="logical", which=op[1], idx=op[2], anc=anc)
        elif kind == "measure":
            what = op[1]
            if what[0] == "gen":
                row = rows[what[1]]
            elif what[0] == "nf":
                row = bits2(code.normal_form)[what[1]]
            elif what[0] == "lx":
                row = bits2(code.logical_x)[what[1]]
            elif what[0] == "lz":
                row = bits2(code.logical_z)[what[1]]
            else:
                row = what[1]
            arg = row_to_str(row) if op[2] == "str" else np.array(row)
            res, exc = guard(code.single_syndrome_measurement, eng, reg, arg)
            out = res if isinstance(res, int) and not isinstance(res, bool) else OFF
            rec = dict(op="measure", row=row, out=out, anc=anc)
        elif kind == "refuse":               # neither n nor n + 1 qubits in the engine
            row = rows[op[1]]
            _, exc = guard(code.single_syndrome_measurement, eng, reg, row_to_str(row) if op[2] == "str" else np.array(row))
            emit(op="refuse", row=row, anc=anc, exc=exc, **look())
            continue
        elif kind == "decode":
            add, dealloc = op[1], op[2]
            if not add:                  # the k ancillas are part of the register handed in
                extra = eng.allocate_qureg(k)
                work = list(reg[:n]) + list(extra)
            else:
                work = reg if not anc else reg[:n]
            orig = list(work)
            ret, exc = guard(code.decoding_circuit, eng, work, add_ancilla_bits=bool(add),
                             deallocate_nqubits=bool(dealloc))
            rec = dict(op="decode", add=add, dealloc=dealloc, reglen=-1)
            if not exc:
                ids = [q.id for q in ret]
                rec["reglen"] = len(ids)
                seen["psi"] = codes_of(vector(eng, ret)) if len(set(ids)) == len(ids) else [9]
                seen["side"] = [int(v) for v in np.abs(vector(eng, side)).max(axis=1) > 1e-5] if len(side) else []
            emit(exc=exc, **rec, **seen)
            reg = orig + [q for q in (ret if ret is not None else []) if all(q is not o for o in orig)]
            break
        if not exc:
            seen = look()
        emit(exc=exc, **rec, **seen)
        if exc:
            break
    try:
        eng.flush()
        where = eng.backend.cheat()[0]
        All(Measure) | [q for q in list(reg) + list(side) if q.id in where]
        eng.flush()
    except Exception:
        pass


if __name__ == "__main__":
    main(run_case)
