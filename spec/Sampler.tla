------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* Lipschitz sampling of starting points.  A state is a tuple of integers  *)
(* (real entries) at the l1 distance; objective values are integers.  The  *)
(* first draw is always evaluated; a later draw x is evaluated exactly     *)
(* when best <= min_i (f(x_i) + |x - x_i|), and the search stops when      *)
(* enough samples were taken or the tries are used up.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Points, Values, Numb, Tries

VARIABLES f, xs, tries, last
vars == <<f, xs, tries, last>>

Abs(a) == IF a < 0 THEN 0 - a ELSE a
Dist(a, b) == Abs(a - b)
Max(s) == CHOOSE m \in s : \A x \in s : x <= m
Best == Max({f[xs[i]] : i \in 1..Len(xs)})
Accept(x) == \A i \in 1..Len(xs) : Best <= f[xs[i]] + Dist(x, xs[i])

Init == /\ f \in [Points -> Values]
        /\ \E x \in Points : xs = <<x>>
        /\ tries = 0 /\ last = <<>>
Draw(x) == /\ tries < Tries /\ Len(xs) < Numb
           /\ tries' = tries + 1
           /\ IF Accept(x) THEN xs' = Append(xs, x) /\ last' = <<>>
                           ELSE xs' = xs /\ last' = <<x>>
           /\ UNCHANGED f
Next == \E x \in Points : Draw(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Lipschitz == \A x, y \in Points : Abs(f[x] - f[y]) <= Dist(x, y)
Bounded == Len(xs) <= Numb /\ tries <= Tries /\ Len(xs) <= tries + 1
(* a rejected point of a 1-Lipschitz objective cannot beat the best sample *)
NoLoss == Lipschitz /\ last # <<>> => f[last[1]] < Best
(* a point can only be rejected because of samples of different values *)
AllEqual == (\A i, j \in 1..Len(xs) : f[xs[i]] = f[xs[j]]) => last = <<>>
Terminates == <>(Len(xs) = Numb \/ tries = Tries)
=============================================================================
