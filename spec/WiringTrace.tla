----------------------------- MODULE WiringTrace -----------------------------
(* Validation of recorded registrations and calls against Wiring (see
   CoreTrace for the verdict lines).                                         *)
EXTENDS Wiring, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, s, done
vars == <<tid, i, s, done>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = InitState /\ done = FALSE

Keys(t) == {t.keys[j] : j \in 1..Len(t.keys)}

Step ==
  /\ ~done
  /\ i < Len(Traces[tid].ops)
  /\ LET o == Traces[tid].ops[i + 1]
         y == Apply(Keys(Traces[tid]), s, o)
     IN /\ i' = i + 1
        /\ s' = y.s
        /\ tid' = tid
        /\ IF y.s.wild
           THEN PrintT(<<"WILD", tid, i + 1>>) /\ done' = TRUE
           ELSE IF o.r # y.r \/ o.ev # y.ev
           THEN PrintT(<<"DIVERGE", tid, i + 1, ToJson([r |-> y.r, ev |-> y.ev])>>) /\ done' = TRUE
           ELSE done' = FALSE
Finish ==
  /\ ~done
  /\ i = Len(Traces[tid].ops)
  /\ PrintT(<<"ACCEPT", tid, i>>)
  /\ done' = TRUE
  /\ UNCHANGED <<tid, i, s>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
