------------------------------- MODULE Inject -------------------------------
(* Bindings of resolvers to flows of control, and injected callables, on top
   of DiwireCore.

   A flow is a thread or a task (or a function run in a copied context).  Each
   has a stack of bound resolvers; a flow either inherits a copy of its
   parent's stack (tasks, copied contexts) or starts with none (threads), and
   nothing it does changes the stack of another flow.  `frm` holds, per flow,
   the binding blocks and injected calls it is inside of, innermost last.

   Further state, beside that of DiwireCore:
     up   the container exists (callables may be declared before)
     bst  flow -> sequence of bound scopes, innermost last
     frm  flow -> sequence of frames
     wr   for each scope handle, whether entering its block binds it
     fns  declared callables
     con  contracts: callables declared for an explicit scope

   A parameter is [k, a, key, d]: kind po pk va ko vk; a is - for a parameter
   that is not injected, else the kind of dependency as in DiwireCore; d: it
   has a default.                                                           *)
EXTENDS DiwireCore

InjectInit(urc, up) ==
  InitState @@ [ up |-> up, urc |-> urc, bst |-> (1 :> <<>>), frm |-> (1 :> <<>>),
                 wr |-> <<>>, fns |-> <<>>, con |-> <<>> ]

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Bound(s, fl) == s.bst[fl] # <<>>
Top(s, fl) == Last(s.bst[fl])

\* handles created by an operation bind their flow iff b
Wrap(s, b) == [s EXCEPT !.wr = @ \o [i \in 1..(Len(s.hs) - Len(@)) |-> b]]

(* ---- the level a callable needs ----------------------------------------- *)
Reaches(reg, d) ==
  CASE d.k \in {"p", "f", "m", "h", "g", "v", "w"} -> {d.key} \cap DOMAIN reg
    [] d.k = "a" -> ToSet(AllKeys(reg, TypeOf(d.key)))
    [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(reg, ks) ==
  LET nxt == ks \cup UNION {UNION {Reaches(reg, reg[k].deps[i]) : i \in 1..Len(reg[k].deps)} : k \in ks}
  IN IF nxt = ks THEN ks ELSE Reach(reg, nxt)
Injected(f) == SelectSeq(f.ps, LAMBDA p : p.a # "-")
DepOf(p) == [k |-> p.a, key |-> p.key, d |-> p.d]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* The level of the template that would serve key k: 0 if there is none, -1 if
\* the type arguments are not admitted
Served(c, s, k) ==
  LET i == {n \in 1..Len(c.gen.terms) : c.gen.terms[n].t = TypeOf(k)}
  IN IF s.tpl = EmptyF \/ k \in DOMAIN s.reg \/ i = {} THEN 0
     ELSE LET f == Offer(c.gen, c.gen.tpls, s.tpl, c.gen.terms[CHOOSE n \in i : TRUE].tm, k % 10, k)
          IN IF k \notin DOMAIN f THEN 0 ELSE IF f[k].kind = "e" THEN -1 ELSE f[k].sc
One(d) == IF d.k \in {"p", "f", "m", "h", "g", "v", "w"} THEN {d.key} ELSE {}
\* every level the dependencies of f are at, as far as inference goes
Levels(c, s, f) ==
  LET ps == Injected(f)
      ks == Reach(s.reg, UNION {Reaches(s.reg, DepOf(ps[i])) : i \in 1..Len(ps)})
      all == UNION {One(DepOf(ps[i])) : i \in 1..Len(ps)}
             \cup UNION {UNION {One(s.reg[k].deps[i]) : i \in 1..Len(s.reg[k].deps)} : k \in ks}
  IN {s.reg[k].sc : k \in ks} \cup {Served(c, s, k) : k \in all}
Needs(c, s, f) == MaxOf({RootLevel(c.lad)} \cup Levels(c, s, f))
\* a type argument is refused where the level is looked at
Inadmissible(c, s, f) == -1 \in Levels(c, s, f)

\* a change of the registrations that breaks a contract is refused; the error
\* is that of the first contract concerned
Fails(c, s, f) == Inadmissible(c, s, f) \/ f.sc < Needs(c, s, f)
Broken(c, s) == \E i \in 1..Len(s.con) : Fails(c, s, s.con[i])
Breach(c, s) ==
  LET i == CHOOSE i \in 1..Len(s.con) : Fails(c, s, s.con[i]) /\ \A j \in 1..(i-1) : ~Fails(c, s, s.con[j])
  IN IF Inadmissible(c, s, s.con[i]) THEN {"E:Generic"} ELSE {"E:InvalidReg"}
Guarded(c, s, x) == IF Broken(c, x.s) THEN Out(s, Breach(c, x.s), <<>>) ELSE x

(* ---- declaring a callable ------------------------------------------------ *)
RECURSIVE AutoInject(_, _, _, _)
AutoInject(c, s, ps, sc) ==
  IF ps = <<>> THEN s
  ELSE LET p == ps[1]
           k == IF p.a \in {"p", "h", "g", "v", "w"} THEN p.key ELSE 0
           t == IF k = 0 \/ k \in DOMAIN s.reg \/ ~Eligible(c, k) THEN s
                ELSE Add(c, s, k, RegisterClass(c, TypeOf(k), sc, c.dl), "r")
       IN AutoInject(c, IF Broken(c, t) THEN s ELSE t, Tail(ps), sc)

\* process the declaration of callable number n by the container
Declare(c, s, n) ==
  LET f == s.fns[n]
      pol == IF f.pol = "" THEN c.dp ELSE f.pol
      s1 == IF pol = "r"
            THEN AutoInject(c, s, f.ps, IF f.sc = 0 THEN RootLevel(c.lad) ELSE f.sc) ELSE s
  IN IF f.done THEN Out(s, {"ok"}, <<>>)
     ELSE IF Inadmissible(c, s1, f) THEN Out(s1, {"E:Generic"}, <<>>)
     ELSE IF f.sc # 0 /\ f.sc < Needs(c, s1, f) THEN Out(s1, {"E:InvalidReg"}, <<>>)
     ELSE Out([s1 EXCEPT !.fns[n].done = TRUE,
                         !.con = IF f.sc = 0 THEN @ ELSE Append(@, f)], {"ok"}, <<>>)

\* what the caller may see of the signature: the parameters not injected
Public(ps) == LET q == SelectSeq([i \in 1..Len(ps) |-> [i |-> i, a |-> ps[i].a]],
                                 LAMBDA p : p.a = "-")
              IN "ok" \o Tuple([i \in 1..Len(q) |-> Str(q[i].i)])

DeclareOp(c, s, o) ==
  LET f == [ps |-> o.ps, sc |-> o.sc, auto |-> o.auto, pol |-> o.pol, as |-> o.as, done |-> FALSE]
      s1 == [s EXCEPT !.fns = Append(@, f)]
      n == Len(s1.fns)
      x == Declare(c, s1, n)
  IN IF ~s.up THEN Out(s1, {Public(o.ps)}, <<>>)
     ELSE IF x.r = {"ok"} THEN [x EXCEPT !.r = {Public(o.ps)}]
     ELSE [x EXCEPT !.s = [@ EXCEPT !.fns = s.fns]]     \* there is no callable

(* ---- calling ---------------------------------------------------------------- *)
\* the scope a call starts from: [s, i, w, e]
Base(c, s, o) ==
  IF o.rs > 0 THEN [s |-> s, i |-> s.hs[o.rs], w |-> s.wr[o.rs], e |-> {}, fb |-> FALSE]
  ELSE IF Bound(s, o.fl) THEN [s |-> s, i |-> Top(s, o.fl), w |-> TRUE, e |-> {}, fb |-> FALSE]
  ELSE IF ~s.urc THEN [s |-> s, i |-> 0, w |-> FALSE, e |-> {"E:NotSet"}, fb |-> FALSE]
  ELSE LET ce == IF s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
       IN IF ce # {} THEN [s |-> s, i |-> 0, w |-> FALSE, e |-> ce, fb |-> TRUE]
          ELSE LET s1 == Compile(c, s)
               IN [s |-> s1, i |-> RootOf(s1), w |-> TRUE, e |-> {}, fb |-> TRUE]

Target(c, s, f) == IF ~f.auto THEN 0 ELSE IF f.sc # 0 THEN f.sc ELSE Needs(c, s, f)

\* the value parameter p (number n) gets from the caller: <<>> or <<value>>
Passed(o, n) ==
  IF \E i \in 1..Len(o.arg) : o.arg[i][1] = n
  THEN <<o.arg[CHOOSE i \in 1..Len(o.arg) : o.arg[i][1] = n][2]>> ELSE <<>>

\* fill the injected parameters, in two passes: all but context values first.
\* acc: values so far, "" where there is none yet
RECURSIVE Fill(_, _, _, _, _, _, _, _)
Fill(s, b, ps, n, pass, acc, md, F) ==
  IF n > Len(ps)
  THEN IF pass = 1 THEN Fill(s, b, ps, 1, 2, acc, md, F)
       ELSE [s |-> s, v |-> acc, e |-> "", ev |-> <<>>, h |-> <<>>, w |-> FALSE]
  ELSE LET p == ps[n]
       IN IF acc[n] # "" \/ p.a = "-" \/ (p.a \in {"x", "y"}) # (pass = 2)
          THEN Fill(s, b, ps, n + 1, pass, acc, md, F)
          ELSE LET x == Supplied(s, b, DepOf(p), md, F)
               IN IF Unsettled(s, b, DepOf(p), md)
                  THEN [s |-> s, v |-> acc, e |-> "", ev |-> <<>>, h |-> <<>>, w |-> TRUE]
                  ELSE IF x.e # ""
                  THEN [s |-> x.s, v |-> acc, e |-> x.e, ev |-> x.ev, h |-> <<>>, w |-> FALSE]
                  ELSE LET y == Fill(x.s, b, ps, n + 1, pass, [acc EXCEPT ![n] = x.v], md, F)
                       IN [y EXCEPT !.ev = x.ev \o @, !.h = HandlesOf(x) \o @]

CallOpI(c, s, o) ==
  LET f  == s.fns[o.f]
      md == IF f.as THEN "a" ELSE "s"
      b0 == Base(c, s, o)
      d  == Declare(c, b0.s, o.f)
      ce == IF b0.fb /\ d.s.cur = 0 THEN CompileErrors(Inside(c, d.s.reg)) ELSE {}
      s2 == IF b0.fb THEN Compile(c, d.s) ELSE d.s
      i  == IF b0.fb THEN RootOf(s2) ELSE b0.i
      lv == Target(c, s2, f)
      pl == IF lv = 0 \/ lv = RootLevel(c.lad) THEN [kind |-> "none", path |-> <<>>]
            ELSE EnterPlan(c.lad, Lvl(s2, i), lv)
      opens == pl.kind = "path"
      s3 == IF opens THEN Open(s2, i, pl.path, CtxOf(o.ctx), <<>>) ELSE s2
      b  == IF opens THEN Last(s3.hs) ELSE i
      s4 == [s3 EXCEPT !.hs = s2.hs]
      acc0 == [n \in 1..Len(f.ps) |->
                 IF Passed(o, n) # <<>> THEN Passed(o, n)[1]
                 ELSE IF f.ps[n].a # "-" THEN ""
                 ELSE IF f.ps[n].k \in {"va", "vk"} THEN "()" ELSE "d"]
      x  == Fill(s4, b, f.ps, 1, 1, acc0, md, FOf(o))
  IN IF ~s.up THEN Out(s, {"E:NotSet"}, <<>>)
     ELSE IF b0.e # {} THEN Out(b0.s, b0.e, <<>>)
     ELSE IF d.r # {"ok"} THEN d
     ELSE IF o.cx = "bad" THEN Out(d.s, {"E:InvalidReg"}, <<>>)
     ELSE IF ce # {} THEN Out(d.s, ce, <<>>)
     ELSE IF ~Usable(s2, i) THEN Wild(s2)
     ELSE IF f.auto /\ f.sc = 0 /\ Inadmissible(c, s2, f) THEN Out(s2, {"E:Generic"}, <<>>)
     ELSE IF o.cx = "yes" /\ ~opens THEN Out(s2, {"E:InvalidReg"}, <<>>)
     ELSE IF x.w THEN Wild(s)
     ELSE IF x.e # ""
     THEN IF ~opens THEN Out(x.s, {x.e}, x.ev)
          ELSE LET y == CloseAll(x.s, <<b>>, md, [fc |-> {}, fr |-> ToSet(o.fr), exc |-> x.e],
                                 [er |-> "", ev |-> <<>>])
               IN Out(y.s, {x.e}, x.ev \o y.ev)
     ELSE LET args == Name(x.v, Len(x.s.hn) + 1)
              s5 == [x.s EXCEPT !.hn = @ \o x.h,
                                !.frm[o.fl] = Append(@, [t |-> "c", i |-> IF opens THEN b ELSE 0,
                                                         w |-> opens /\ b0.w, md |-> md, h |-> 0]),
                                !.bst[o.fl] = IF opens /\ b0.w THEN Append(@, b) ELSE @]
          IN Out(s5, {"call" \o Tuple(args)}, x.ev)

\* the body of the innermost call returns or raises
FinishOp(c, s, o) ==
  LET fr == Last(s.frm[o.fl])
      s1 == [s EXCEPT !.frm[o.fl] = Front(@), !.bst[o.fl] = IF fr.w THEN Front(@) ELSE @]
      F == [fc |-> {}, fr |-> ToSet(o.fr), exc |-> IF o.exc = "" THEN "-" ELSE o.exc]
      y == CloseAll(s1, <<fr.i>>, fr.md, F, [er |-> "", ev |-> <<>>])
      own == IF o.exc = "" THEN "ok" ELSE "E:body"
  IN IF fr.i = 0 THEN Out(s1, {own}, <<>>)
     ELSE Out(y.s, {IF o.exc = "" /\ y.er # "" THEN y.er ELSE own}, y.ev)

(* ---- binding blocks --------------------------------------------------------- *)
BindOp(c, s, o) ==
  IF o.h = 0
  THEN LET ce == IF s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
           s1 == Compile(c, s)
           r  == RootOf(s1)
           s2 == Wrap([s1 EXCEPT !.hs = Append(@, r)], s.urc)
       IN IF ce # {} THEN Out(s, ce, <<>>)
          ELSE IF ~s1.sc[r].open THEN Wild(s)
          ELSE Out([s2 EXCEPT !.bst[o.fl] = IF s.urc THEN Append(@, r) ELSE @,
                              !.frm[o.fl] = Append(@, [t |-> "b", i |-> r, w |-> s.urc, md |-> o.md, h |-> 0])],
                   {"ok"}, <<>>)
  ELSE LET i == s.hs[o.h]
       IN IF ~Usable(s, i) THEN Wild(s)
          ELSE Out([s EXCEPT !.bst[o.fl] = IF s.wr[o.h] THEN Append(@, i) ELSE @,
                             !.frm[o.fl] = Append(@, [t |-> "b", i |-> i, w |-> s.wr[o.h], md |-> o.md, h |-> o.h])],
                   {"ok"}, <<>>)

UnbindOp(c, s, o) ==
  LET fr == Last(s.frm[o.fl])
      s1 == [s EXCEPT !.frm[o.fl] = Front(@), !.bst[o.fl] = IF fr.w THEN Front(@) ELSE @]
  IN CloseOp(c, s1, [at |-> fr.h, md |-> fr.md, exc |-> o.exc, fr |-> o.fr])

(* ---- requests through the container or the context ---------------------------- *)
\* the container is asked while a resolver is bound: that one answers; what it
\* does not know the container may add or know by now
ViaBound(c, s, o) ==
  LET i   == Top(s, o.fl)
      pol == IF o.pol = "" THEN c.mp ELSE o.pol
      F   == FOf(o)
      x   == AskAt(s, i, o.tok, o.md, F)
      \* refused by templates registered since
      BadNow == /\ CompileErrors(Inside(c, s.reg)) = {}
                /\ LET t == Compile(c, s) IN o.tok.key \in DOMAIN GenOf(t, RootOf(t)).bad
      Newer(t) == o.tok.key \in DOMAIN t.reg /\ o.tok.key \notin DOMAIN GenOf(s, i).reg
      AtRoot(t, ev) ==
        LET ce == IF t.cur = 0 THEN CompileErrors(Inside(c, t.reg)) ELSE {}
            t1 == Compile(c, t)
            y  == AskAt(t1, RootOf(t1), o.tok, o.md, F)
        IN IF ce # {} THEN Out(t, ce, ev)
           ELSE IF ~t1.sc[RootOf(t1)].open THEN Wild(s)
           ELSE [y EXCEPT !.ev = ev \o @,
                          !.alt = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.ev = ev \o @]>>]
      Then(t, ev, other) ==
        LET t1 == Ensure(c, t, o.tok.key, pol)
        IN IF Broken(c, t1) THEN Out(t, Breach(c, t1), ev)
           ELSE IF t1.reg # t.reg \/ Newer(t1) THEN AtRoot(t1, ev) ELSE other
  IN IF ~Usable(s, i) THEN Wild(s)
     ELSE IF pol = "e" \/ o.tok.k \notin {"p", "h", "g"} THEN x
     ELSE IF o.tok.key \in DOMAIN GenOf(s, i).bad \/ BadNow THEN Wild(s)
     ELSE IF o.tok.k \in {"h", "g"} THEN Then(s, <<>>, x)
     ELSE IF x.r = {"E:NotRegistered"} THEN Then(x.s, x.ev, x)
     ELSE x

ResolveOpI(c, s, o) ==
  CASE o.at > 0 -> ResolveOp(c, s, o)
    [] o.at = 0 -> IF s.urc /\ Bound(s, o.fl) THEN ViaBound(c, s, o)
                   ELSE LET x == ResolveOp(c, s, o)
                        IN IF Broken(c, x.s) THEN Out(Compile(c, s), Breach(c, x.s), <<>>) ELSE x
    [] o.at = -1 ->
         IF Bound(s, o.fl)
         THEN IF ~Usable(s, Top(s, o.fl)) THEN Wild(s)
              ELSE AskAt(s, Top(s, o.fl), o.tok, o.md, FOf(o))
         ELSE IF ~s.up THEN Out(s, {"E:NotSet"}, <<>>)
         ELSE LET ce == IF s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
                  s1 == Compile(c, s)
              IN IF ce # {} THEN Out(s, ce, <<>>)
                 ELSE IF ~s1.sc[RootOf(s1)].open THEN Wild(s)
                 ELSE AskAt(s1, RootOf(s1), o.tok, o.md, FOf(o))

EnterOpI(c, s, o) ==
  LET core(w) == LET x == EnterOp(c, s, [o EXCEPT !.at = IF @ < 0 THEN 0 ELSE @])
                 IN [x EXCEPT !.s = Wrap(@, w)]
      bound == LET x == EnterAt(c, s, Top(s, o.fl), o) IN [x EXCEPT !.s = Wrap(@, TRUE)]
  IN CASE o.at > 0 -> core(s.wr[o.at])
       [] o.at = 0 -> IF s.urc /\ Bound(s, o.fl) THEN bound ELSE core(s.urc)
       [] o.at = -1 -> IF Bound(s, o.fl) THEN bound
                       ELSE IF ~s.up THEN Out(s, {"E:NotSet"}, <<>>)
                       ELSE core(TRUE)

FlowOp(s, o) ==
  Out([s EXCEPT !.bst = (o.new :> IF o.inh THEN s.bst[o.fl] ELSE <<>>) @@ @,
                !.frm = (o.new :> <<>>) @@ @], {"ok"}, <<>>)

ApplyI(c, s, o) ==
  CASE o.op \in {"reg", "dec", "tpl", "tdec"} -> Guarded(c, s, Apply(c, s, o))
    [] o.op \in {"bad", "call", "cls"} -> Apply(c, s, o)
    [] o.op = "cmp" -> LET x == Apply(c, s, o) IN [x EXCEPT !.s = Wrap(@, s.urc)]
    [] o.op = "res" -> ResolveOpI(c, s, o)
    [] o.op = "ent" -> EnterOpI(c, s, o)
    [] o.op = "con" -> Out([s EXCEPT !.up = TRUE], {"ok"}, <<>>)
    [] o.op = "flo" -> FlowOp(s, o)
    [] o.op = "bnd" -> BindOp(c, s, o)
    [] o.op = "unb" -> UnbindOp(c, s, o)
    [] o.op = "dcl" -> DeclareOp(c, s, o)
    [] o.op = "cll" -> CallOpI(c, s, o)
    [] o.op = "fin" -> FinishOp(c, s, o)

(* ---- properties ------------------------------------------------------------- *)
\* P16: what is bound is exactly what the open frames of the flow bind, on top
\* of what it inherited; P15: a call's scope stays open as long as the call
RECURSIVE FrameScopes(_)
FrameScopes(q) == IF q = <<>> THEN <<>>
                  ELSE (IF q[1].w THEN <<q[1].i>> ELSE <<>>) \o FrameScopes(Tail(q))
BindingsMatchFrames(s) ==
  \A fl \in DOMAIN s.bst :
     LET m == FrameScopes(s.frm[fl])
     IN Len(m) <= Len(s.bst[fl])
        /\ SubSeq(s.bst[fl], Len(s.bst[fl]) - Len(m) + 1, Len(s.bst[fl])) = m
ContractsHold(c, s) == ~Broken(c, s)
SafeI(c, s) == Safe(s) /\ BindingsMatchFrames(s) /\ ContractsHold(c, s)
=============================================================================
