--------------------------- MODULE InferenceTrace ----------------------------
(* Validation of recorded registrations against Inference (see CoreTrace for
   the verdict lines).                                                       *)
EXTENDS Inference, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, s, done
vars == <<tid, i, s, done>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = InitState /\ done = FALSE

Step ==
  /\ ~done
  /\ i < Len(Traces[tid].ops)
  /\ LET o == Traces[tid].ops[i + 1]
         y == Apply(s, o)
     IN /\ i' = i + 1
        /\ s' = y.s
        /\ tid' = tid
        /\ IF o.op = "reg" /\ ~Honest(o)
           THEN PrintT(<<"WILD", tid, i + 1>>) /\ done' = TRUE
           ELSE IF o.r # y.r
           THEN PrintT(<<"DIVERGE", tid, i + 1, ToJson([r |-> y.r, ev |-> y.ev])>>) /\ done' = TRUE
           ELSE done' = FALSE
Finish ==
  /\ ~done
  /\ i = Len(Traces[tid].ops)
  /\ PrintT(<<"ACCEPT", tid, i>>)
  /\ done' = TRUE
  /\ UNCHANGED <<tid, i, s>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
