------------------------------ MODULE ConcTrace ------------------------------
(* Validation of recorded concurrent executions.  A trace is
   [c |-> configuration, pre |-> <<operations performed alone, as in CoreTrace>>,
    n |-> number of actors, ev |-> <<events>>].                               *)
EXTENDS Concurrent, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Config(c) ==
  [ lad |-> c.lad, mp |-> c.mp, dp |-> c.dp, dl |-> c.dl, cls |-> EmptyF,
    gen |-> IF "gen" \in DOMAIN c THEN c.gen
            ELSE [tpls |-> <<>>, terms |-> <<>>, vars |-> <<>>, sub |-> <<>>, uni |-> <<>>, nty |-> <<>>] ]
Configs == [n \in 1..Len(Traces) |-> Config(Traces[n].c)]

VARIABLES tid, i, m, done
vars == <<tid, i, m, done>>

RECURSIVE Prepare(_, _, _)
Prepare(c, s, ops) ==
  IF ops = <<>> THEN s
  ELSE LET x == Apply(c, s, ops[1])
       IN IF x.s.wild \/ ops[1].r \notin x.r \/ ops[1].ev # x.ev THEN [s EXCEPT !.wild = TRUE]
          ELSE Prepare(c, x.s, Tail(ops))

Init ==
  /\ tid \in 1..Len(Traces)
  /\ i = 0 /\ done = FALSE
  /\ LET s == Prepare(Configs[tid], InitState, Traces[tid].pre)
     IN m = Monitor(IF s.wild \/ (s.cur = 0 /\ CompileErrors(Inside(Configs[tid], s.reg)) # {})
                    THEN [s EXCEPT !.wild = TRUE] ELSE Compile(Configs[tid], s), Traces[tid].n)

Follow ==
  /\ ~done
  /\ ~m.s.wild
  /\ i < Len(Traces[tid].ev)
  /\ LET x == Step(Configs[tid], m, Traces[tid].ev[i + 1])
     IN /\ i' = i + 1
        /\ tid' = tid
        /\ m' = x.m
        /\ IF x.no # ""
           THEN PrintT(<<"DIVERGE", tid, i + 1, ToJson([r |-> x.no])>>) /\ done' = TRUE
           ELSE IF ~ConcurrentlySafe(x.m)
           THEN PrintT(<<"UNSAFE", tid, i + 1>>) /\ done' = TRUE
           ELSE done' = FALSE
Finish ==
  /\ ~done
  /\ m.s.wild \/ i = Len(Traces[tid].ev)
  /\ IF m.s.wild THEN PrintT(<<"WILD", tid, i>>) ELSE PrintT(<<"ACCEPT", tid, i>>)
  /\ done' = TRUE
  /\ UNCHANGED <<tid, i, m>>
Next == Follow \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
