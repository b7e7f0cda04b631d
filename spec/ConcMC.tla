------------------------------- MODULE ConcMC -------------------------------
(* Bounded-exhaustive exploration of Concurrent: every order of events that the
   monitor allows, for small scenarios.  The file named by MENUS holds
     [c |-> configuration, start |-> operations performed alone first,
      progs |-> <<the requests of each actor>>, fails |-> <<[pid, n]>>: the first
      n calls of provider pid raise, cancels |-> cancellations at any moment]
   In a program the scope -1 is the scope its actor opened last, and a "call"
   calls the lazy handle its actor got last.  Checked in every state: the
   guarantees of P08 and P09 as state predicates, that callers agree, that a
   provider runs once more than it failed at most, and that as long as a request
   is open some actor can go on, so nothing in the specification forces a
   deadlock.  harness/conc_all.py performs the same scenarios on the real code
   under all schedules and has each execution judged by the same monitor.     *)
EXTENDS Concurrent, Json, IOUtils

Menus == JsonDeserialize(IOEnv.MENUS)
Config(c) ==
  [ lad |-> c.lad, mp |-> c.mp, dp |-> c.dp, dl |-> c.dl, cls |-> EmptyF,
    gen |-> [tpls |-> <<>>, terms |-> <<>>, vars |-> <<>>, sub |-> <<>>, uni |-> <<>>, nty |-> <<>>] ]
Configs == [n \in 1..Len(Menus) |-> Config(Menus[n].c)]

\* pc: next request of each actor; own, hd: last scope and handle; got: results;
\* fl: failing calls still to come; doom: calls that will raise; cb: cancellations left
VARIABLES id, m, pc, own, hd, got, fl, doom, cb
vars == <<id, m, pc, own, hd, got, fl, doom, cb>>

M == Menus[id]
Actors == 1..Len(M.progs)

RECURSIVE Start(_, _, _)
Start(c, t, q) == IF q = <<>> THEN t ELSE Start(c, Apply(c, t, q[1]).s, Tail(q))

Init ==
  /\ id \in 1..Len(Menus)
  /\ m = Monitor(LET s == Start(Configs[id], InitState, Menus[id].start)
                 IN IF s.cur = 0 THEN Compile(Configs[id], s) ELSE s, Len(Menus[id].progs))
  /\ pc = [t \in Actors |-> 1]
  /\ own = [t \in Actors |-> 0]
  /\ hd = [t \in Actors |-> 0]
  /\ got = [t \in Actors |-> <<>>]
  /\ fl = [i \in 1..Len(M.fails) |-> M.fails[i].n]
  /\ doom = {}
  /\ cb = M.cancels

\* the request o of actor t, its scope and handle filled in
Filled(t, o) == CASE o.op = "call" -> [o EXCEPT !.h = hd[t]]
                [] o.op # "call" /\ o.at = 0 - 1 -> [o EXCEPT !.at = own[t]]
                [] OTHER -> o

\* requests that need a scope or handle their actor did not get are left out
RECURSIVE NextReq(_, _)
NextReq(t, n) ==
  IF n > Len(M.progs[t]) THEN n
  ELSE LET o == M.progs[t][n]
       IN IF (o.op = "call" /\ hd[t] = 0) \/ (o.op # "call" /\ o.at = 0 - 1 /\ own[t] = 0)
          THEN NextReq(t, n + 1) ELSE n

\* what actor t may do next
Events(t) ==
  LET q == m.th[t]
      s == m.s
      ret(r) == [e |-> "ret", t |-> t, r |-> r]
  IN IF q = <<>>
     THEN LET n == NextReq(t, pc[t])
          IN IF n > Len(M.progs[t]) THEN {} ELSE {[e |-> "q", t |-> t, o |-> Filled(t, M.progs[t][n])]}
     ELSE IF Top(q).f = "prov" /\ Top(q).st = "body"
     THEN LET n == Top(q).o
          IN {IF n \in doom THEN [e |-> "x", t |-> t, n |-> n, tag |-> "E:boom"] ELSE [e |-> "k", t |-> t, n |-> n]}
             \cup (IF t \in m.can THEN {[e |-> "x", t |-> t, n |-> n, tag |-> "E:cancel"]} ELSE {})
     ELSE LET o == q[LastReq(q, Len(q))].o
          IN CASE o.op \in {"res", "call"} ->
                    LET z == Run(s, q, o.md)
                        x == Top(z)
                    IN (IF x.f = "req"
                        THEN {ret(IF x.v[1] = "?" THEN "h" \o Str(Len(s.hn) + 1) ELSE x.v[1])}
                        ELSE {[e |-> "b", t |-> t, pid |-> GenOf(s, x.b).reg[x.key].pid,
                               a |-> Name(x.acc, Len(s.hn) + 1)]})
                       \cup (IF t \in m.can THEN {ret("E:cancel")} ELSE {})
               [] o.op = "ent" -> {ret(r) : r \in EnterOp(Configs[id], s, o).r}
               [] o.op = "cls" ->
                    LET x == Top(q)
                        n == FirstLeft(x.left)
                    IN IF n = 0 THEN {ret("ok")} ELSE {[e |-> "r", t |-> t, o |-> d] : d \in x.left[n]}
Possible(t) == {e \in Events(t) : Step(Configs[id], m, e).no = ""}

Do(t, e) ==
  LET x == Step(Configs[id], m, e)
      i == {j \in 1..Len(M.fails) : e.e = "b" /\ M.fails[j].pid = e.pid /\ fl[j] > 0}
  IN /\ ~x.m.s.wild
     /\ m' = x.m
     /\ id' = id
     /\ cb' = cb
     /\ pc' = IF e.e = "q" THEN [pc EXCEPT ![t] = NextReq(t, @) + 1] ELSE pc
     /\ own' = IF e.e = "ret" /\ Len(x.m.s.hs) > Len(m.s.hs) THEN [own EXCEPT ![t] = Len(x.m.s.hs)] ELSE own
     /\ hd' = IF Len(x.m.s.hn) > Len(m.s.hn) /\ e.e = "ret" THEN [hd EXCEPT ![t] = Len(x.m.s.hn)] ELSE hd
     /\ got' = IF e.e = "ret" /\ x.m.th[t] = <<>> THEN [got EXCEPT ![t] = Append(@, e.r)] ELSE got
     /\ fl' = [j \in DOMAIN fl |-> IF j \in i THEN fl[j] - 1 ELSE fl[j]]
     /\ doom' = IF i # {} THEN doom \cup {m.s.oc + 1} ELSE doom

Cancel(t) ==
  /\ cb > 0
  /\ m.th[t] # <<>>
  /\ m.th[t][LastReq(m.th[t], Len(m.th[t]))].o.op \in {"res", "call"}
  /\ t \notin m.can
  /\ m' = Step(Configs[id], m, [e |-> "can", t |-> t]).m
  /\ cb' = cb - 1
  /\ UNCHANGED <<id, pc, own, hd, got, fl, doom>>

Next == \E t \in Actors : (\E e \in Possible(t) : Do(t, e)) \/ Cancel(t)

\* ---- what has to hold -------------------------------------------------------
Done == \A t \in Actors : m.th[t] = <<>> /\ NextReq(t, pc[t]) > Len(M.progs[t])
SomeoneCanGoOn == Done \/ \E t \in Actors : Possible(t) # {}

Safely == ConcurrentlySafe(m)

\* requests for the same scoped object that succeeded got the same object
IsValue(r) == \A e \in {"E:boom", "E:cancel", "E:NotRegistered", "E:Scope", "E:Async", "ok"} : r # e
SameRequest(t, i, u, j) ==
  LET o == M.progs[t][i]
      p == M.progs[u][j]
  IN /\ o = p /\ o.op = "res" /\ o.at # 0 - 1 /\ o.tok.k = "p"
     /\ LET g == GenOf(m.s, Where(m.s, o))
        IN o.tok.key \in DOMAIN g.reg /\ g.reg[o.tok.key].lt = "S"
CallersAgree ==
  \A t, u \in Actors : \A i \in 1..Len(got[t]), j \in 1..Len(got[u]) :
    SameRequest(t, i, u, j) /\ IsValue(got[t][i]) /\ IsValue(got[u][j]) => got[t][i] = got[u][j]

\* a failure or cancellation is seen by the one request it happened to
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Seen(r) == Cardinality({<<t, i>> \in Actors \X (1..9) : i <= Len(got[t]) /\ got[t][i] = r})
OwnFailure ==
  /\ Seen("E:cancel") <= M.cancels - cb
  /\ Seen("E:boom") <= Sum([i \in 1..Len(M.fails) |-> M.fails[i].n]) - Sum([i \in 1..Len(M.fails) |-> fl[i]])

Invariant == Safely /\ CallersAgree /\ SomeoneCanGoOn /\ OwnFailure
=============================================================================
