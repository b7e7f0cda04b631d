------------------------------ MODULE InjectTrace ------------------------------
(* Validation of executions recorded from the implementation.  The file named
   by the environment variable TRACES holds a JSON array of traces
     [c |-> configuration, ops |-> <<operation with its observation>>]
   Each trace is followed through ApplyI; every operation's result and events
   are compared in full and every state is checked against Safe.  One verdict
   line is printed per trace: ACCEPT, WILD k (left the specified domain before
   operation k), or DIVERGE k with the allowed observation.                  *)
EXTENDS Inject, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

Config(c) ==
  [ lad |-> c.lad, mp |-> c.mp, dp |-> c.dp, dl |-> c.dl,
    cls |-> Classes(c.cls),
    gen |-> IF "gen" \in DOMAIN c THEN c.gen ELSE [tpls |-> <<>>, terms |-> <<>>, vars |-> <<>>, sub |-> <<>>, uni |-> <<>>, nty |-> <<>>] ]
Configs == [n \in 1..Len(Traces) |-> Config(Traces[n].c)]

VARIABLES tid, i, s, done
vars == <<tid, i, s, done>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = InjectInit(Traces[tid].c.urc, Traces[tid].c.up) /\ done = FALSE

Step ==
  /\ ~done
  /\ i < Len(Traces[tid].ops)
  /\ LET o == Traces[tid].ops[i + 1]
         x == ApplyI(Configs[tid], s, o)
         y == IF x.alt # <<>> /\ o.r \in x.alt[1].r /\ o.ev = x.alt[1].ev THEN x.alt[1] ELSE x
     IN /\ i' = i + 1
        /\ s' = y.s
        /\ tid' = tid
        /\ IF y.s.wild
           THEN PrintT(<<"WILD", tid, i + 1>>) /\ done' = TRUE
           ELSE IF o.r \notin y.r \/ o.ev # y.ev
           THEN PrintT(<<"DIVERGE", tid, i + 1, ToJson([r |-> y.r, ev |-> y.ev])>>) /\ done' = TRUE
           ELSE IF ~SafeI(Configs[tid], y.s)
           THEN PrintT(<<"UNSAFE", tid, i + 1>>) /\ done' = TRUE
           ELSE done' = FALSE
Finish ==
  /\ ~done
  /\ i = Len(Traces[tid].ops)
  /\ PrintT(<<"ACCEPT", tid, i>>)
  /\ done' = TRUE
  /\ UNCHANGED <<tid, i, s>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
