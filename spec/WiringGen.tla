------------------------------ MODULE WiringGen ------------------------------
(* Enumerates every signature of at most MaxParams parameters, every choice of
   which of its keys are supplied, and prints what the provider must receive;
   harness/wiring.py replays each case in the provider shapes it fits.        *)
EXTENDS Wiring, Json

CONSTANTS MaxParams, Annotations

Kinds == {"po", "pk", "va", "ko", "vk"}
KeyOf(k, i) == CASE k = "va" -> 7 [] k = "vk" -> 8 [] OTHER -> i
Params(i) ==
  {[n |-> i, k |-> k, d |-> d, a |-> a, key |-> KeyOf(k, i)] :
      k \in Kinds, d \in BOOLEAN, a \in Annotations}
Sigs(i) ==
  {<<p>> : p \in {q \in Params(i) : ~(Star(q.k) /\ q.d)}}

RECURSIVE Signatures(_)
Signatures(n) ==
  IF n = 0 THEN {<<>>}
  ELSE LET shorter == Signatures(n - 1)
           longest == {q \in shorter : Len(q) = n - 1}
       IN shorter \cup
          {q \o p : q \in longest, p \in Sigs(n)}

VARIABLES sig, K, X, step
vars == <<sig, K, X, step>>

Plain(q) == {q[i].key : i \in {j \in 1..Len(q) : q[j].a \notin {"x", "y", "-"}}}
Context(q) == {q[i].key : i \in {j \in 1..Len(q) : q[j].a \in {"x", "y"}}}

Init ==
  /\ sig \in {q \in Signatures(MaxParams) : Valid(q)}
  /\ K \in SUBSET Plain(sig)
  /\ X \in SUBSET Context(sig)
  /\ step = 0

Reg == [op |-> "reg", pid |-> 1, sig |-> sig, isx |-> FALSE, expl |-> <<>>, root |-> FALSE, dec |-> 0]
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Listed(S \ {x})

Next ==
  /\ step = 0
  /\ step' = 1
  /\ UNCHANGED <<sig, K, X>>
  /\ LET a == Apply(K, InitState, Reg)
         b == Apply(K, a.s, [op |-> "res", pid |-> 1, ctx |-> Listed(X)])
     IN IF a.s.wild \/ (a.r = "ok" /\ b.s.wild) THEN TRUE
        ELSE PrintT(<<"CASE", ToJson([sig |-> sig, keys |-> Listed(K), ctx |-> Listed(X), reg |-> a.r,
                          r |-> IF a.r = "ok" THEN b.r ELSE "", ev |-> IF a.r = "ok" THEN b.ev ELSE <<>>])>>)
=============================================================================
