------------------------------ MODULE InjectMC ------------------------------
(* Bounded-exhaustive exploration of Inject, as CoreMC does for DiwireCore: all
   interleavings of a few flows that bind and unbind scopes, call injected
   functions, return or raise from them, and ask through the context, the
   container or a scope.  A scenario is
     [c, start, toks, mds, fcs, reqs, ctxs, excs, frs, calls, scopes, depth, merge]
   as in CoreMC, and
     ats    where is asked: -1 the context, 0 the container, 1 scope handles
     args   for each callable declared in start, the arguments it may be given
     cxs    whether a call comes with context values: no, yes (ctxs apply), bad
     rs     whether calls are given a resolver
     flows  how many flows there may be
     depthf how many frames a flow may be inside of
     bmds   modes of binding blocks                                           *)
EXTENDS Inject, Json, IOUtils

Menus == JsonDeserialize(IOEnv.MENUS)
Config(c) ==
  [ lad |-> c.lad, mp |-> c.mp, dp |-> c.dp, dl |-> c.dl,
    cls |-> Classes(c.cls),
    gen |-> IF "gen" \in DOMAIN c THEN c.gen ELSE [tpls |-> <<>>, terms |-> <<>>, vars |-> <<>>, sub |-> <<>>, uni |-> <<>>, nty |-> <<>>] ]
Configs == [n \in 1..Len(Menus) |-> Config(Menus[n].c)]

VARIABLES m, h, s
vars == <<m, h, s>>
R(q) == {q[i] : i \in 1..Len(q)}
Handles(t) == {i \in 1..Len(t.hs) : \A j \in 1..i - 1 : t.hs[j] # t.hs[i] \/ t.wr[j] # t.wr[i]}
Over(t) == t.gens # <<>> /\ \E i \in 1..Len(t.sc) : t.sc[i].par = 0 /\ ~t.sc[i].open
Flows(t) == DOMAIN t.bst
\* scopes that something open relies on
Held(t) == UNION {UNION {Chain(t, i) : i \in R(t.bst[fl])} : fl \in Flows(t)}
           \cup UNION {UNION {Chain(t, f.i) : f \in R(t.frm[fl])} : fl \in Flows(t)}
Spots(M, t, fl) ==
  {a \in R(M.ats) \ {1} : t.bst[fl] # <<>> \/ ~Over(t)}
  \cup (IF 1 \in R(M.ats) THEN {i \in Handles(t) : Usable(t, t.hs[i])} ELSE {})

Asks(M, t, fl) ==
  {[op |-> "res", at |-> i, tok |-> k, md |-> d, pol |-> "", fc |-> f, fl |-> fl] :
     i \in Spots(M, t, fl), k \in R(M.toks), d \in R(M.mds), f \in R(M.fcs)}
LazyCalls(M, t, fl) ==
  IF ~M.calls THEN {}
  ELSE {[op |-> "call", h |-> i, fc |-> <<>>, fl |-> fl] : i \in {j \in 1..Len(t.hn) : Usable(t, t.hn[j].sid)}}
EntersI(M, t, fl) ==
  IF Len(t.hs) >= M.scopes THEN {}
  ELSE {[op |-> "ent", at |-> i, req |-> q, ctx |-> x, fl |-> fl] : i \in Spots(M, t, fl), q \in R(M.reqs), x \in R(M.ctxs)}
ClosesI(M, t, fl) ==
  {[op |-> "cls", at |-> i, md |-> "a", exc |-> "", fr |-> <<>>, fl |-> fl] :
     i \in {j \in Handles(t) : t.sc[t.hs[j]].open /\ t.sc[t.hs[j]].par # 0 /\ t.hs[j] \notin Held(t)}}
Depth(t, fl) == Len(t.frm[fl])
Binds(M, t, fl) ==
  IF Depth(t, fl) >= M.depthf THEN {}
  ELSE {[op |-> "bnd", h |-> i, md |-> d, fl |-> fl] : d \in R(M.bmds),
          i \in {j \in Handles(t) : /\ Usable(t, t.hs[j]) /\ t.sc[t.hs[j]].par # 0
                                    /\ \A f2 \in Flows(t) : t.hs[j] \notin R(t.bst[f2])
                                         /\ \A n \in 1..Len(t.frm[f2]) : t.frm[f2][n].i # t.hs[j]}}
Ends(M, t, fl) ==
  IF t.frm[fl] = <<>> THEN {}
  ELSE LET f == Last(t.frm[fl])
           op == IF f.t = "b" THEN "unb" ELSE "fin"
       IN IF op = "unb" /\ \E f2 \in Flows(t) \ {fl} : f.i \in UNION {Chain(t, i) : i \in R(t.bst[f2])} THEN {}
          ELSE {[op |-> op, exc |-> x, fr |-> r, fl |-> fl, h |-> f.h, md |-> f.md] : x \in R(M.excs), r \in R(M.frs)}
Resolvers(M, t) == {-1} \cup IF M.rs THEN {i \in Handles(t) : Usable(t, t.hs[i])} ELSE {}
Invocations(M, t, fl) ==
  IF Depth(t, fl) >= M.depthf THEN {}
  ELSE {o \in UNION {{[op |-> "cll", f |-> n, arg |-> a, rs |-> i, cx |-> x,
                       ctx |-> IF x = "yes" THEN q ELSE <<>>, fc |-> f, fr |-> r, fl |-> fl] :
             a \in R(M.args[n]), i \in Resolvers(M, t), x \in R(M.cxs), q \in R(M.ctxs), f \in R(M.fcs), r \in R(M.frs)} :
             n \in 1..Len(t.fns)} : o.rs > 0 \/ Bound(t, fl) \/ ~Over(t)}
Splits(M, t, fl) ==
  IF Cardinality(Flows(t)) >= M.flows THEN {}
  ELSE {[op |-> "flo", new |-> Cardinality(Flows(t)) + 1, inh |-> b, fl |-> fl] : b \in BOOLEAN}
More(M, fl) == {o @@ [fl |-> fl] : o \in R(M.more)}

MovesOf(M, t, fl) ==
  Asks(M, t, fl) \cup LazyCalls(M, t, fl) \cup EntersI(M, t, fl) \cup ClosesI(M, t, fl) \cup Binds(M, t, fl)
  \cup Ends(M, t, fl) \cup Invocations(M, t, fl) \cup Splits(M, t, fl) \cup More(M, fl)

RECURSIVE Start(_, _, _)
Start(c, t, q) == IF q = <<>> THEN t ELSE Start(c, ApplyI(c, t, q[1]).s, Tail(q))

Init == /\ m \in 1..Len(Menus)
        /\ h = <<>>
        /\ s = Start(Configs[m], InjectInit(Menus[m].c.urc, Menus[m].c.up), Menus[m].start)
Next ==
  /\ Len(h) < Menus[m].depth
  /\ m' = m
  /\ \E fl \in Flows(s) : \E o \in MovesOf(Menus[m], s, fl) :
       LET x == ApplyI(Configs[m], s, o)
       IN /\ ~x.s.wild
          /\ h' = Append(h, o)
          /\ s' = x.s
          /\ PrintT(<<"EDGE", m, ToJson([h |-> h', r |-> x.r, ev |-> x.ev,
                  alt |-> [i \in 1..Len(x.alt) |-> [r |-> x.alt[i].r, ev |-> x.alt[i].ev]]])>>)
LastChange == IF h = <<>> \/ h[Len(h)].op \notin {"reg", "dec", "tpl", "tdec", "bad", "dcl"} THEN <<>>
              ELSE <<h[Len(h)]>>
View == IF Menus[m].merge THEN <<m, LastChange, Len(h), s>> ELSE <<m, h, 0, s>>
Invariant == SafeI(Configs[m], s)
=============================================================================
