------------------------------ MODULE DeviceLife ------------------------------
(***************************************************************************)
(* Design model of estimating an average fidelity on a device: trials of   *)
(* reset, random circuit, channel, inverse circuit, measurement.           *)
(***************************************************************************)
EXTENDS DeviceDefs
CONSTANTS N, L, Trials, Chans, AvgL

VARIABLES phase, psi, circ, chan, trial, zeros
vars == <<phase, psi, circ, chan, trial, zeros>>
ChanGates(c) == CASE c = "id" -> <<>> [] c = "x" -> << <<"X", 0>> >> [] c = "z" -> << <<"R", 3, {0}>> >>
                  [] c = "y" -> << <<"X", 0>>, <<"R", 3, {0}>> >>
                  [] c = "zz" -> [q \in 1..N |-> <<"R", 3, {q - 1}>>]
                  [] c = "cz" -> << <<"R", 3, {0, N - 1}>> >>
Init == /\ phase = "idle" /\ psi = Basis(N, 0) /\ circ = <<>> /\ chan \in Chans /\ trial = 0 /\ zeros = 0
Reset == phase = "idle" /\ trial < Trials /\ psi' = Basis(N, 0) /\ circ' = <<>> /\ phase' = "design"
         /\ UNCHANGED <<chan, trial, zeros>>
Layer == /\ phase = "design" /\ Len(circ) < L
         /\ \E ly \in AllLayers(N) : circ' = Append(circ, ly) /\ psi' = Run(LayerGates(ly, N), 1, psi, N)
         /\ UNCHANGED <<phase, chan, trial, zeros>>
Channel == phase = "design" /\ Len(circ) = L /\ psi' = Run(ChanGates(chan), 1, psi, N) /\ phase' = "invert"
           /\ UNCHANGED <<circ, chan, trial, zeros>>
Undo == /\ phase = "invert" /\ circ # <<>>
        /\ psi' = Run(Inverse(LayerGates(circ[Len(circ)], N)), 1, psi, N)
        /\ circ' = SubSeq(circ, 1, Len(circ) - 1) /\ UNCHANGED <<phase, chan, trial, zeros>>
Measure == /\ phase = "invert" /\ circ = <<>>
           /\ \E b \in 0..(2^N - 1) : psi[b + 1] # <<0, 0>> /\ zeros' = zeros + (IF b = 0 THEN 1 ELSE 0)
           /\ trial' = trial + 1 /\ phase' = "idle" /\ psi' = Basis(N, 0) /\ UNCHANGED <<circ, chan>>
Next == Reset \/ Layer \/ Channel \/ Undo \/ Measure
Spec == Init /\ [][Next]_vars

RECURSIVE NormAll(_, _)
NormAll(p, i) == IF i > Len(p) THEN 0 ELSE ZNorm(p[i]) + NormAll(p, i + 1)
Hs == IF phase = "design" THEN N * Len(circ) ELSE IF phase = "invert" THEN N * (2 * L - Len(circ)) ELSE 0
UnitLength == NormAll(psi, 1) = 2^Hs
IdentityIsPerfect == chan = "id" => zeros = trial
Bounded == zeros \in 0..trial /\ trial \in 0..Trials
InverseIsInverse == phase = "design" /\ circ # <<>> =>
   LET g == LayerGates(circ[Len(circ)], N) IN IsIdentity(g \o Inverse(g), N)
CanonRecovers == phase = "design" /\ circ # <<>> =>
   LET g == LayerGates(circ[Len(circ)], N) cn == Canonical(g, N)
   IN IsDesign(cn, N, 1) /\ \A q \in 0..(N - 1) : cn.s[<<0, q>>] = circ[Len(circ)].s[q]
SameIsInverse == phase = "design" /\ circ # <<>> =>
   LET g == LayerGates(circ[Len(circ)], N)
   IN \A ly \in AllLayers(N) :
        LET post == Inverse(LayerGates(ly, N))
        IN SameLayers(Canonical(g, N), Canonical(Inverse(post), N)) = IsIdentity(g \o post, N)

(* averaged exactly over all circuits of AvgL layers, the survival probability *)
(* of a Pauli channel is 1/(d+1) up to the precision of the design             *)
RECURSIVE Surv(_, _, _), SurvOver(_, _, _, _)
(* |<0| U^-1 C U |0>|^2 * 4^(N * layers), summed over the circuits *)
Surv(p, gs, m) ==
   IF m = 0 THEN ZNorm(Run(Inverse(gs), 1, Run(ChanGates(chan), 1, p, N), N)[1])
   ELSE SurvOver(AllLayers(N), p, gs, m)
SurvOver(s, p, gs, m) ==
   IF s = {} THEN 0
   ELSE LET ly == TLCEval(CHOOSE ly \in s : TRUE) g == TLCEval(LayerGates(ly, N)) q == TLCEval(Run(g, 1, p, N))
        IN Surv(q, gs \o g, m - 1) + SurvOver(s \ {ly}, p, gs, m)
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
(* |average - target| <= 2^(-N l), AvgL = 2 l + 1, all in units of 1/total *)
NearAverage ==
   phase = "idle" /\ trial = 0 /\ AvgL > 0 =>
     LET tot == Pow(Cardinality(AllLayers(N)), AvgL) * Pow(4, N * AvgL)
         sum == Surv(Basis(N, 0), <<>>, AvgL)
         d == 2^N
         l == (AvgL - 1) \div 2
     IN IF chan = "id" THEN sum = tot
        ELSE IF chan = "cz" THEN sum < tot
        ELSE Abs((d + 1) * (sum \div 64) - tot \div 64) * 2^(N * l) <= (d + 1) * (tot \div 64)
=============================================================================
