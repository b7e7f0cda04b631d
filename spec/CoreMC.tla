------------------------------- MODULE CoreMC -------------------------------
(* Bounded-exhaustive exploration of DiwireCore.  The file named by MENUS holds
   a JSON array of scenarios
     [c |-> configuration, start |-> operations performed first,
      toks, mds, fcs |-> what may be asked for, how, and which providers fail,
      reqs, ctxs |-> which scopes are entered with which context,
      excs, frs, clmds |-> how scopes are closed and which releases fail,
      more |-> further operations (registrations, decorations, refused calls),
      calls, root |-> lazy handles are called / the container is closed,
      scopes, depth |-> bounds]
   TLC visits every state reachable within the bounds, checks Safe in each, and
   prints every transition with the operations leading to it and the predicted
   observation.  harness/exhaustive.py performs each of them on the real code.
   A state is identified by everything that happened in it (constructions,
   releases, scopes); operations without effect lead back to the same state
   when the scenario merges states.                                          *)
EXTENDS DiwireCore, Json, IOUtils

Menus == JsonDeserialize(IOEnv.MENUS)
Config(c) ==
  [ lad |-> c.lad, mp |-> c.mp, dp |-> c.dp, dl |-> c.dl,
    cls |-> Classes(c.cls),
    gen |-> IF "gen" \in DOMAIN c THEN c.gen ELSE [tpls |-> <<>>, terms |-> <<>>, vars |-> <<>>, sub |-> <<>>, uni |-> <<>>, nty |-> <<>>] ]
Configs == [n \in 1..Len(Menus) |-> Config(Menus[n].c)]

\* facts about the ladders that the guarantees rest on
ASSUME \A n \in 1..Len(Menus) :
  /\ IsLadder(Configs[n].lad)
  /\ EnterNeverSkipsFirm(Configs[n].lad)
  /\ EnterReachesTarget(Configs[n].lad)
  /\ DefaultIsFirstFirm(Configs[n].lad)

VARIABLES m, h, s
vars == <<m, h, s>>
\* the first of the handles that designate the same scope stands for all
Handles(t) == {0} \cup {i \in 1..Len(t.hs) : \A j \in 1..i - 1 : t.hs[j] # t.hs[i]}
Live(t) == {i \in Handles(t) : i = 0 \/ Usable(t, t.hs[i])}
Closable(t) == {i \in Handles(t) \ {0} : t.sc[t.hs[i]].open /\ t.sc[t.hs[i]].par # 0}
Over(t) == t.gens # <<>> /\ \E i \in 1..Len(t.sc) : t.sc[i].par = 0 /\ ~t.sc[i].open
R(q) == {q[i] : i \in 1..Len(q)}

Asks(M, t) ==
  {[op |-> "res", at |-> i, tok |-> k, md |-> d, pol |-> "", fc |-> f] :
     i \in Live(t), k \in R(M.toks), d \in R(M.mds), f \in R(M.fcs)}
Calls(M, t) ==
  IF ~M.calls THEN {}
  ELSE {[op |-> "call", h |-> i, fc |-> f] : i \in {j \in 1..Len(t.hn) : Usable(t, t.hn[j].sid)}, f \in R(M.fcs)}
Level(c, t, i) == IF i = 0 THEN RootLevel(c.lad) ELSE Lvl(t, t.hs[i])
Enters(M, c, t) ==
  IF Len(t.hs) >= M.scopes THEN {}
  ELSE {o \in {[op |-> "ent", at |-> i, req |-> q, ctx |-> x] : i \in Live(t), q \in R(M.reqs), x \in R(M.ctxs)} :
          ~(Level(c, t, o.at) = Deepest(c.lad) /\ o.req = Deepest(c.lad))}
Closes(M, t) ==
  {[op |-> "cls", at |-> i, md |-> d, exc |-> x, fr |-> f] :
     i \in Closable(t) \cup (IF M.root /\ t.gens # <<>> THEN {0} ELSE {}),
     d \in R(M.clmds), x \in R(M.excs), f \in R(M.frs)}
Moves(M, c, t) ==
  IF Over(t) THEN Closes(M, t)
  ELSE Asks(M, t) \cup Calls(M, t) \cup Enters(M, c, t) \cup Closes(M, t) \cup R(M.more)

RECURSIVE Start(_, _, _)
Start(c, t, q) == IF q = <<>> THEN t ELSE Start(c, Apply(c, t, q[1]).s, Tail(q))

Init == /\ m \in 1..Len(Menus)
        /\ h = <<>>
        /\ s = Start(Configs[m], InitState, Menus[m].start)
Next ==
  /\ Len(h) < Menus[m].depth
  /\ m' = m
  /\ \E o \in Moves(Menus[m], Configs[m], s) :
       LET x == Apply(Configs[m], s, o)
       IN /\ ~x.s.wild
          /\ h' = Append(h, o)
          /\ s' = x.s
          /\ PrintT(<<"EDGE", m, ToJson([h |-> h', r |-> x.r, ev |-> x.ev,
                  alt |-> [i \in 1..Len(x.alt) |-> [r |-> x.alt[i].r, ev |-> x.alt[i].ev]]])>>)
\* a scenario that merges identifies states reached by different operations,
\* but tries everything after each change of the registrations, refused or not
LastChange == IF h = <<>> \/ h[Len(h)].op \notin {"reg", "dec", "tpl", "tdec", "bad", "dcl"} THEN <<>>
              ELSE <<h[Len(h)]>>
View == IF Menus[m].merge THEN <<m, LastChange, Len(h), s>> ELSE <<m, h, 0, s>>
Invariant == Safe(s)
=============================================================================
