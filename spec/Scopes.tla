------------------------------- MODULE Scopes -------------------------------
(* The scope ladder.  A ladder is a sequence of [l |-> level, sk |-> skippable]
   records in increasing level order; its first element is the root scope.
   Pure operators only: which levels a resolver at level L may enter, by which
   path, and what the result of an enter request is.                         *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Above(lv, L)  == SelectSeq(lv, LAMBDA e : e.l > L)
LOCAL Firm(lv, L)   == SelectSeq(lv, LAMBDA e : e.l > L /\ ~e.sk)

RootLevel(lv)       == lv[1].l
IsLevel(lv, x)      == \E i \in 1..Len(lv) : lv[i].l = x
Deepest(lv)         == lv[Len(lv)].l

ImmediateNext(lv, L) == Above(lv, L)[1].l
DefaultNext(lv, L)   == IF Firm(lv, L) = <<>> THEN ImmediateNext(lv, L)
                                              ELSE Firm(lv, L)[1].l

(* Levels opened, shallowest first, on the way from L to T (L < T).          *)
RECURSIVE PathTo(_, _, _)
PathTo(lv, L, T) ==
  IF L >= T THEN <<>>
  ELSE LET im == ImmediateNext(lv, L)
           df == DefaultNext(lv, L)
           nx == IF im = T THEN im ELSE IF df <= T THEN df ELSE im
       IN <<nx>> \o PathTo(lv, nx, T)

(* Outcome of "enter scope `req` while at level L"; req = 0 means no explicit
   target.  kind: "err" | "self" | "path".                                   *)
EnterPlan(lv, L, req) ==
  IF L = Deepest(lv)          THEN [kind |-> "err",  path |-> <<>>]
  ELSE IF req = 0             THEN [kind |-> "path", path |-> <<DefaultNext(lv, L)>>]
  ELSE IF req = L             THEN [kind |-> "self", path |-> <<>>]
  ELSE IF req < L             THEN [kind |-> "err",  path |-> <<>>]
  ELSE IF ~IsLevel(lv, req)   THEN [kind |-> "err",  path |-> <<>>]
  ELSE IF req = DefaultNext(lv, L) THEN [kind |-> "path", path |-> <<req>>]
  ELSE [kind |-> "path", path |-> PathTo(lv, L, req)]

(* Facts about ladders that the container's guarantees rest on; evaluated by
   TLC over every ladder up to the bound of ScopesMC.                        *)
IsLadder(lv) == /\ Len(lv) >= 1
                /\ \A i \in 1..(Len(lv)-1) : lv[i].l < lv[i+1].l
                /\ ~lv[1].sk

EnterNeverSkipsFirm(lv) ==
  \* a path never jumps over a non-skippable level
  \A i \in 1..Len(lv) : \A t \in {0} \cup {lv[j].l : j \in 1..Len(lv)} :
     LET L == lv[i].l
         p == EnterPlan(lv, L, t)
     IN p.kind = "path" =>
          \A j \in 1..Len(lv) :
             (lv[j].l > L /\ lv[j].l < p.path[Len(p.path)] /\ ~lv[j].sk)
                => \E k \in 1..Len(p.path) : p.path[k] = lv[j].l

EnterReachesTarget(lv) ==
  \A i \in 1..Len(lv) : \A j \in 1..Len(lv) :
     LET p == EnterPlan(lv, lv[i].l, lv[j].l)
     IN IF lv[i].l = Deepest(lv) THEN p.kind = "err"
        ELSE CASE j = i -> p.kind = "self"
               [] j < i -> p.kind = "err"
               [] j > i -> p.kind = "path" /\ p.path[Len(p.path)] = lv[j].l
                           /\ \A k \in 1..(Len(p.path)-1) : p.path[k] < p.path[k+1]
                           /\ p.path[1] > lv[i].l

DefaultIsFirstFirm(lv) ==
  \A i \in 1..(Len(lv)-1) :
     LET p == EnterPlan(lv, lv[i].l, 0)
     IN /\ p.kind = "path" /\ Len(p.path) = 1
        /\ IF \E j \in (i+1)..Len(lv) : ~lv[j].sk
           THEN \E j \in (i+1)..Len(lv) :
                   /\ lv[j].l = p.path[1] /\ ~lv[j].sk
                   /\ \A k \in (i+1)..(j-1) : lv[k].sk
           ELSE p.path[1] = lv[i+1].l
=============================================================================
