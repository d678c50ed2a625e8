"""Fidelity estimation and encoder/decoder optimisation of the real device classes.

A recording simulator (or a backend with scripted measurement outcomes) logs every command."""
import numpy as np
from common import Guard, main, integer, OFF

from projectq import MainEngine
from projectq.backends import Simulator
from projectq.cengines import BasicEngine
from projectq.ops import (All, Measure, X, Z, H, R, CNOT, Rz, Allocate, Deallocate, FlushGate, MeasureGate, XGate,
                          HGate, ZGate)
from projectq.meta import Control, get_control_count

from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
from PyQCodes.find_codes import QDeviceChannel

guard = Guard(200)


class Log:
    def __init__(self):
        self.ev = []

    def command(self, cmd, outcome=None):
        g = cmd.gate
        t = [q.id for qr in cmd.qubits for q in qr]
        ctl = [q.id for q in cmd.control_qubits]
        if isinstance(g, FlushGate):
            return
        if g == Allocate:
            self.ev.append(["alloc", t[0]])
        elif g == Deallocate:
            self.ev.append(["dealloc", t[0]])
        elif isinstance(g, MeasureGate):
            self.ev.append(["m", t[0], outcome])
        elif g == H and not ctl:
            self.ev.append(["H", t[0]])
        elif g == X and not ctl:
            self.ev.append(["X", t[0]])
        elif g == X and len(ctl) == 1:          # CNOT = H CZ H; the unnormalised H's cancel up to a factor
            self.ev += [["H", t[0]], ["R", 3, [t[0]] + ctl], ["H", t[0]]]
        elif g == Z:
            self.ev.append(["R", 3, t + ctl])
        elif isinstance(g, R) or (isinstance(g, Rz) and not ctl):   # equal up to a global phase
            a = float(np.asarray(g.angle).ravel()[0]) * 3 / np.pi
            a = integer(a)
            self.ev.append(["R", a % 6 if a != OFF else OFF, t + ctl])
        else:
            self.ev.append(["other", str(g)[:20]])


class RecordingSimulator(Simulator):
    def __init__(self, log):
        super().__init__(rnd_seed=np.random.randint(1, 10 ** 6))
        self.log = log

    def _handle(self, cmd):
        if isinstance(cmd.gate, MeasureGate):
            super()._handle(cmd)
            for qr in cmd.qubits:
                for q in qr:
                    self.log.ev.append(["m", q.id, int(self._simulator.measure_qubits([q.id])[0])])
            return
        self.log.command(cmd)
        super()._handle(cmd)

    def set_wavefunction(self, wavefunction, qureg):
        w = np.asarray(wavefunction, dtype=complex)
        one = [i for i in range(len(w)) if abs(w[i]) > 1e-9]
        # ProjectQ: the first qubit is the least significant bit
        self.log.ev.append(["wave", [q.id for q in qureg], one[0] if len(one) == 1 and abs(w[one[0]] - 1) < 1e-9
                            else OFF])
        super().set_wavefunction(wavefunction, qureg)


class Scripted(BasicEngine):
    """a device whose measurement outcomes are given in advance"""
    def __init__(self, log, outcome):
        super().__init__()
        self.log, self.outcome = log, outcome

    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, MeasureGate):
                for qr in cmd.qubits:
                    for q in qr:
                        o = self.outcome(q)
                        self.log.ev.append(["m", q.id, o])
                        self.main_engine.set_measurement_result(q, bool(o))
            else:
                self.log.command(cmd)


GATES = {"x0": lambda e, r: X | r[0], "z0": lambda e, r: Z | r[0], "h0": lambda e, r: H | r[0],
         "xl": lambda e, r: X | r[-1], "cnot": lambda e, r: CNOT | (r[0], r[-1]), "allx": lambda e, r: All(X) | r,
         "s0": lambda e, r: R(2 * np.pi / 3) | r[0], "id": lambda e, r: None}


def cz(e, r):
    with Control(e, r[0]):
        Z | r[-1]


GATES["cz"] = cz


def split(ev):
    """trials: a trial ends with its last measurement; what follows belongs to the next one"""
    out, cur = [], []
    for e in ev:
        if cur and cur[-1][0] == "m" and e[0] != "m":
            out.append(cur)
            cur = []
        cur.append(e)
    if any(e[0] == "m" for e in cur):
        out.append(cur)
        cur = []
    return out, cur


def emit_trials(ev, n, emit, extra):
    trials, rest = split(ev)
    for t in trials:
        marks = [e for e in t if e[0] == "chan"]
        reg = marks[0][1] if marks else []
        pos = {q: i for i, q in enumerate(reg)}
        p = lambda q: pos.get(q, 99)
        reset = {"alloc": [p(e[1]) for e in t if e[0] == "alloc"],
                 "dealloc": len([e for e in t if e[0] == "dealloc"]),
                 "wave": [[p(q) for q in e[1]] + [e[2]] for e in t if e[0] == "wave"]}
        parts, cur, order, seen = {"pre": [], "in": [], "post": [], "after": []}, "pre", [], []
        meas = []
        late = 0
        for e in t:
            k = e[0]
            if k == "chan":
                cur = "in"
                seen.append(e[2:])
            elif k == "chanend":
                cur = "post"
            elif k == "stage":
                order.append(e[1])
            elif k == "m":
                meas.append([p(e[1]), e[2]])
                cur = "after"
            elif k in ("alloc", "dealloc", "wave"):
                late += int(cur != "pre" or bool(parts["pre"]))
            elif k == "H" or k == "X":
                parts[cur].append([k, 0, [p(e[1])]])
            elif k == "R":
                parts[cur].append([k, e[1], [p(q) for q in e[2]]])
            else:
                parts[cur].append(["other", 0, []])
        emit(op="trial", n=n, pre=parts["pre"], inn=parts["in"], post=parts["post"], after=len(parts["after"]),
             meas=meas, reset=reset, late=late, chans=len(marks), same=seen, stages=order, reg=len(set(reg)), **extra)
    return len(trials), len(rest)


def run_case(c, emit):
    if c["op"] == "optimize":
        return optimise(c, emit)
    n = c["n"]
    log = Log()
    eng = MainEngine(backend=RecordingSimulator(log), engine_list=[])
    reg = eng.allocate_qureg(n)
    eng.flush()
    obj = {}

    def mark(f):
        def channel(e, r):
            log.ev.append(["chan", [q.id for q in r], int(e is eng), int(len(r) == n)])
            f(e, r)
            log.ev.append(["chanend"])
        return channel

    def stage(name, f):
        def g(e, r):
            log.ev.append(["stage", name])
            assert e is eng and len(r) == n
            f(e, r)
        return g
    cur = {}
    ch = mark(lambda e, r: GATES[cur["chan"]](e, r))
    if c["via"] == "adaptor":
        dev = ProjectQDeviceAdaptor(eng, reg)
    else:
        dev = QDeviceChannel(eng, reg, ch if c["via"] == "channel" else stage("chan", lambda e, r:
                                                                             GATES[cur["chan"]](e, r)))
    log.ev = []
    if "script" in c:
        return direct(c, dev, log, emit)
    for call in c["calls"]:
        cur["chan"] = call["chan"]
        eps, times, cheat = 1. * call["p"] / call["q"], call["ntimes"], bool(call["cheat"])
        if c["via"] == "adaptor":
            est, exc = guard(dev.estimate_average_fidelity, ch, times, eps, cheat)
        elif c["via"] == "channel":
            est, exc = guard(dev.estimate_average_fidelity_channel, times, eps, *([cheat] if cheat else []))
        else:
            # the stages are inside one channel: mark its beginning and end in encoder and decoder
            def enc(e, r):
                log.ev.append(["chan", [q.id for q in r], int(e is eng), int(len(r) == n)])
                log.ev.append(["stage", "enc"])
                GATES[call["enc"]](e, r)

            def dec(e, r):
                log.ev.append(["stage", "dec"])
                assert e is eng and len(r) == n
                GATES[call["dec"]](e, r)
                log.ev.append(["chanend"])
            est, exc = guard(dev.estimate_average_fidelity_error_code, enc, dec, times, eps)
        ev, log.ev = log.ev, []
        stages = ["enc", "chan", "dec"] if c["via"] == "code" else []
        num, rest = emit_trials(ev, n, emit, dict(p=call["p"], q=call["q"], cheat=int(cheat), want=stages,
                                                  ident=int(call["chan"] == "id" and c["via"] != "code")))
        emit(op="call", n=n, exc=exc, ntimes=times, trials=num, rest=rest, p=call["p"], q=call["q"],
             est=OFF if exc else integer(est * times), isfloat=int(not exc and isinstance(est, (float, np.floating))))
    if c["via"] != "adaptor":
        emit(op="props", ok=int(dev.eng is eng and dev.numb_qubits == n and len(dev.register) == n and
                                callable(dev.channel)))
    else:
        emit(op="props", ok=int(dev.eng is eng and dev.numb_qubits == n and len(dev.register) == n))


def direct(c, dev, log, emit):
    """reset, random circuit and inverse called one by one: circuits are undone in the reverse order"""
    n, stack = c["n"], []
    for op in c["script"]:
        kind, p, q, exc, gates = op[0], 1, 1, "", []
        ids = [x.id for x in dev.register]
        if kind == "zero":
            _, exc = guard(lambda: dev.set_register_to_zero(*([True] if op[1] else [])))
            ids, stack = [x.id for x in dev.register], []
        elif kind == "design":
            p, q = op[1], op[2]
            phases, exc = guard(dev.approximate_unitary_two_design, 1. * p / q)
            stack.append(phases)
        elif kind == "undo":
            _, exc = guard(dev.inverse_of_unitary_two_design, stack.pop())
        else:
            _, exc = guard(lambda: GATES[op[1]](dev.eng, dev.register))
        dev.eng.flush()
        ev, log.ev = log.ev, []
        pos = {x: i for i, x in enumerate(ids)}
        for e in ev:
            if e[0] in ("H", "X"):
                gates.append([e[0], 0, [pos.get(e[1], 99)]])
            elif e[0] == "R":
                gates.append(["R", e[1], [pos.get(x, 99) for x in e[2]]])
            elif e[0] in ("m", "other"):
                gates.append(["other", 0, []])
        zero, bad = guard(lambda: dev.eng.backend.get_probability("0" * n, dev.register))
        emit(op="direct", kind=kind, n=n, p=p, q=q, gates=gates if kind != "zero" else [], exc=exc,
             zero=OFF if bad else integer(zero * 1000, .01) if abs(zero * 1000 - round(zero * 1000)) < .01 else -1,
             reg=len(set(ids)))
    out = [Measure | x for x in dev.register]
    dev.eng.flush()


def optimise(c, emit):
    """the outcomes depend on the parameters given to encoder and decoder: a known objective"""
    n, M, N = c["n"], c["M"], c["N"]
    times = c["ntimes"]
    log = Log()
    evals = []
    state = {"trial": 0, "enc": None, "cur": None, "bits": []}

    def quality(params):
        """number of successes out of ntimes: best at the target, with steps"""
        d = sum(abs(a - b) for a, b in zip(params, c["target"])) / (1e-9 + sum(h - l for l, h in c["bounds"]))
        return max(0, int(round(times * (1 - d))))

    def outcome(q):
        # one failing trial: only one of the qubits is one
        ok = state["good"]
        return 0 if ok or q.id != state["bad"] else 1
    eng = MainEngine(backend=Scripted(log, outcome), engine_list=[])
    reg = eng.allocate_qureg(n)
    eng.flush()

    def enc(e, r, params):
        # since the last measurement every qubit of the register is a new one
        fresh, log.ev = log.ev, []
        last = max([i for i, x in enumerate(fresh) if x[0] == "m"] or [-1])
        state["fresh"] = int({q.id for q in r} <= {x[1] for x in fresh[last + 1:] if x[0] == "alloc"} or
                             any(x[0] == "wave" for x in fresh[last + 1:]))
        state["enc"] = [float(x) for x in np.asarray(params).ravel()]
        state["order"] = ["enc"]

    def chan(e, r):
        state["order"] = state.get("order", []) + ["chan"]

    def dec(e, r, params):
        full = state["enc"] + [float(x) for x in np.asarray(params).ravel()]
        state["order"] = state.get("order", []) + ["dec"]
        # a new evaluation begins after ntimes trials
        if not evals or evals[-1]["count"] == times:
            evals.append({"params": full, "count": 0, "zeros": 0, "same": 1, "order": 1, "lens": 1, "fresh": 1})
        v = evals[-1]
        v["fresh"] &= int(state["fresh"] and not any(x[0] in ("alloc", "dealloc", "wave", "m") for x in log.ev))
        v["same"] &= int(v["params"] == full)
        v["order"] &= int(state["order"] == ["enc", "chan", "dec"])
        v["lens"] &= int(len(state["enc"]) == M and len(full) == M + N)
        good = v["count"] < quality(full) if len(full) == len(c["target"]) else False
        state["good"] = good
        state["bad"] = r[(v["count"] + len(evals)) % n].id
        v["count"] += 1
        v["zeros"] += int(good)
    dev = QDeviceChannel(eng, reg, chan)
    bounds = [tuple(b) for b in c["bounds"]]
    kw = {}
    if c["optimizer"]:
        kw["optimizer"] = c["optimizer"]
    if c["maxiter"]:
        kw["maxiter"] = c["maxiter"]
    res, exc = guard(dev.optimize_encoder_decoder_average_fidelity, enc, dec, times, .5, (M, N), bounds, **kw)
    rec = dict(op="optimize", M=M, N=N, ntimes=times, exc=exc, bad=c["bad"], fields=0, val=OFF, at=[], lens=0,
               evals=[], inb=0, maxiter=c["maxiter"] or 10)
    grid = 10 ** 6

    def fix(ps):
        return [int(round(p * grid)) for p in ps]
    if not exc:
        rec["fields"] = int(isinstance(res, dict) and
                            {"success", "optimal_val", "params_encoder", "params_decoder"} <= set(res))
        if rec["fields"]:
            pe, pd = [float(x) for x in res["params_encoder"]], [float(x) for x in res["params_decoder"]]
            rec["lens"] = int(len(pe) == M and len(pd) == N)
            full = pe + pd
            rec["val"] = integer(res["optimal_val"] * times)
            # what was measured for these parameters
            rec["at"] = sorted({v["zeros"] for v in evals if v["count"] == times and v["params"] == full})
            rec["inb"] = int(all(lo - 1e-12 <= p <= hi + 1e-12 for p, (lo, hi) in zip(full, bounds)))
        rec["evals"] = [[v["zeros"], v["count"], v["same"], v["order"], v["lens"],
                         int(all(lo - 1e-7 <= p <= hi + 1e-7 for p, (lo, hi) in zip(v["params"], bounds))), v["fresh"]]
                        for v in evals]
    emit(**rec)


if __name__ == "__main__":
    main(run_case)
