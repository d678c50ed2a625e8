------------------------------ MODULE CodeGen ------------------------------
(***************************************************************************)
(* Generates behaviours of CodeLife (TLC simulation) as scripts for the    *)
(* real code: a random code of the specification, then a random path       *)
(* through the life cycle.  The generated path obeys CodeLife's guards     *)
(* (decode only inside the code space, logicals only when K > 0, ...).     *)
(***************************************************************************)
EXTENDS CodeLife, Json

VARIABLES script
gvars == <<vars, script>>

GInit == /\ gens = <<>> /\ lx = <<>> /\ lz = <<>> /\ phase = "none" /\ tab = <<>>
         /\ frame = Id /\ pure = TRUE /\ steps = 0 /\ x = <<>> /\ script = <<>>

Fresh(g, ls, ms) == {p \in HermPaulis : /\ CommutesWithAll(p, g) /\ CommutesWithAll(p, ls)
                                        /\ CommutesWithAll(p, ms) /\ ~InSpan(p, g)}
Partner(g, ls, ms, p) == {q \in Fresh(g, ls, ms) : ~Commute(p, q)}
RECURSIVE Pick(_, _, _)
Pick(g, ls, ms) ==
   IF Len(ls) = K THEN [lx |-> ls, lz |-> ms]
   ELSE LET c == {p \in Fresh(g, ls, ms) : Partner(g, ls, ms, p) # {}}
        IN IF c = {} THEN [lx |-> <<>>, lz |-> <<>>]
           ELSE LET p == RandomElement(c)
                    q == RandomElement(Partner(g, ls, ms, p))
                IN Pick(g, Append(ls, p), Append(ms, q))

GBuild == /\ phase = "none"
          /\ \E g \in {RandomElement(Codes)} :
               \E ll \in {Pick(g, <<>>, <<>>)} :
                 /\ Len(ll.lx) = K
                 /\ gens' = g /\ lx' = ll.lx /\ lz' = ll.lz
          /\ phase' = "built" /\ x' = [i \in 1..K |-> 0]
          /\ UNCHANGED <<tab, frame, pure, steps, script>>

Say(e) == script' = Append(script, e)
Rw(p) == ToRow(p, N)

GEncode == \E bits \in Tuples({0, 1}, K), anc \in {0, 1} :
              Encode(bits) /\ Say(<<"encode", bits, anc>>)
GPauli == \E e \in Paulis : ApplyPauli(e) /\ Say(<<"pauli", Rw(e)>>)
GStab == \E i \in 1..(N - K), f \in {"str", "array", "list"} :
              ApplyStabilizer(i) /\ Say(<<"stab", i - 1, f>>)
GLogical == \E op \in {"X", "Y", "Z"}, i \in 0..(K - 1) :
              Logical(op, i) /\ Say(<<"logical", op, i>>)
GMeasAny == \E p \in HermPaulis, o \in {0, 1}, f \in {"str", "array"} :
              Measure(p, o) /\ Say(<<"measure", <<"row", Rw(p)>>, f>>)
GMeasGen == \E i \in 1..(N - K), o \in {0, 1}, f \in {"str", "array"} :
              Measure(gens[i], o) /\ Say(<<"measure", <<"row", Rw(gens[i])>>, f>>)
GDecode == \E a, d \in {0, 1} : K > 0 /\ Decode /\ Say(<<"decode", a, d>>)
GFinish == /\ phase = "decoded" \/ (phase = "encoded" /\ steps = MaxSteps /\ (K = 0 \/ ~InCodeSpace(tab, gens)))
           /\ PrintT("@@GEN " \o ToJson([n |-> N, k |-> K, gens |-> [i \in 1..Len(gens) |-> Rw(gens[i])],
                                         script |-> script]))
           /\ phase' = "done"
           /\ UNCHANGED <<gens, lx, lz, tab, frame, x, pure, steps, script>>
GNext == \/ GBuild \/ GEncode \/ GPauli \/ GStab \/ GLogical \/ GMeasAny \/ GMeasGen
         \/ (steps > 2 /\ GDecode) \/ GFinish
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
