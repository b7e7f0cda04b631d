----------------------------- MODULE Concurrent -----------------------------
(* Concurrent use of a container whose registrations no longer change, by
   threads or by tasks.  What is specified is the order of visible events:

     q    a request starts              b  a provider is called with arguments
     k    that call delivers its object x  it raises instead
     can  a task is cancelled           r  a resource is released
     ret  a request returns

   Everything else (locks, caches, waiting) is left to the implementation.
   A monitor state m is [s: state of DiwireCore, th: actor -> stack of frames,
   bld: scoped objects under construction, acq: when each resource was
   acquired, can: actors with a pending cancellation, ix: number of events].
   Step(c, m, e) gives the next monitor state and the reason of a refusal.    *)
EXTENDS DiwireCore

Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
SetTop(q, f) == [q EXCEPT ![Len(q)] = f]

\* hand value v (and new lazy handles h) to the frame that waits for it
Give(q, v, h) ==
  LET x == Top(q)
  IN CASE x.f = "prov" -> SetTop(q, [x EXCEPT !.n = @ + 1, !.acc = Append(@, v), !.h = @ \o h])
       [] x.f = "all"  -> SetTop(q, [x EXCEPT !.ks = Tail(@), !.acc = Append(@, v)])
       [] x.f = "req"  -> SetTop(q, [x EXCEPT !.v = <<v>>, !.h = h])

\* the innermost frame whose caller is user code
RECURSIVE Base(_, _)
Base(q, n) == IF q[n].f = "req" \/ (q[n].f = "prov" /\ q[n].st = "body") THEN n ELSE Base(q, n - 1)
RECURSIVE LastReq(_, _)
LastReq(q, n) == IF q[n].f = "req" THEN n ELSE LastReq(q, n - 1)
\* an error ends everything up to the innermost request
Fail(q, e) ==
  LET n == LastReq(q, Len(q))
  IN [SubSeq(q, 1, n) EXCEPT ![n] = [@ EXCEPT !.v = <<e>>]]

KeyFrame(s, i, key) ==
  LET g == GenOf(s, i)
      r == g.reg[key]
      own == Anc(s, i, r.sc)
      b == IF r.lt = "S" THEN own ELSE IF key \in g.deep THEN i ELSE own
  IN [f |-> "prov", key |-> key, b |-> b, n |-> 0, acc |-> <<>>, h |-> <<>>, st |-> "args", o |-> 0]

\* ask for the object of key as seen from scope i
AskKey(s, q, i, key, md) ==
  LET g == GenOf(s, i)
      r == g.reg[key]
  IN IF key \notin DOMAIN g.reg THEN Fail(q, "E:NotRegistered")
     ELSE IF key \in DOMAIN g.bad THEN Fail(q, g.bad[key][1])
     ELSE IF r.kind = "i" THEN Give(q, IF r.rv = "n" THEN "n" ELSE "i" \o Str(r.pid), <<>>)
     ELSE IF r.st = 0 /\ md # "a" /\ key \in g.as THEN Fail(q, "E:Async")
     ELSE IF r.sc > Lvl(s, i) \/ Anc(s, i, r.sc) = 0 THEN Fail(q, "E:Scope")
     ELSE IF md = "s" /\ key \in g.as THEN Fail(q, "E:Async")
     ELSE IF r.lt = "S" /\ <<Anc(s, i, r.sc), key>> \in DOMAIN s.cache
       THEN Give(q, s.cache[<<Anc(s, i, r.sc), key>>], <<>>)
     ELSE Append(q, KeyFrame(s, i, key))

HandleOf(q, key, md, i) == Give(q, "?", <<[key |-> key, md |-> md, sid |-> i]>>)

AskDep(s, q, i, d, md) ==
  LET reg == GenOf(s, i).reg
      has == d.key \in DOMAIN reg
      absent == Give(q, IF d.d THEN "d" ELSE "n", <<>>)
      ctx == Lookup(s, i, d.key)
  IN CASE d.k = "p" -> IF has THEN AskKey(s, q, i, d.key, md) ELSE Fail(q, "E:NotRegistered")
       [] d.k = "m" -> IF has THEN AskKey(s, q, i, d.key, md) ELSE absent
       [] d.k = "f" -> IF has THEN AskKey(s, q, i, d.key, md) ELSE Give(q, "d", <<>>)
       [] d.k = "a" -> Append(q, [f |-> "all", i |-> i, ks |-> AllKeys(reg, TypeOf(d.key)), acc |-> <<>>])
       [] d.k = "h" -> HandleOf(q, d.key, "s", i)
       [] d.k = "g" -> HandleOf(q, d.key, "a", i)
       [] d.k = "v" -> IF has /\ reg[d.key].kind = "e" THEN Fail(q, "E:Generic")
                       ELSE IF has THEN HandleOf(q, d.key, "s", i) ELSE absent
       [] d.k = "w" -> IF has /\ reg[d.key].kind = "e" THEN Fail(q, "E:Generic")
                       ELSE IF has THEN HandleOf(q, d.key, "a", i) ELSE absent
       [] d.k = "t" -> Give(q, "t" \o Str(TypeOf(d.key)), <<>>)
       [] d.k = "x" -> IF ctx # <<>> THEN Give(q, ctx[1], <<>>) ELSE Fail(q, "E:NotRegistered")
       [] d.k = "y" -> IF ctx # <<>> THEN Give(q, ctx[1], <<>>) ELSE absent

\* a pending construction ends early when its object exists by now
Finished(s, q) ==
  LET b == Base(q, Len(q))
      hit == {n \in (b + 1)..Len(q) : q[n].f = "prov" /\ <<q[n].b, q[n].key>> \in DOMAIN s.cache}
  IN IF hit = {} THEN q
     ELSE LET n == CHOOSE x \in hit : \A y \in hit : x <= y
          IN Give(SubSeq(q, 1, n - 1), s.cache[<<q[n].b, q[n].key>>], <<>>)

RECURSIVE Run(_, _, _)
\* everything that happens silently until user code is called or gets a result
Run(s, q0, md) ==
  LET q == Finished(s, q0)
      x == Top(q)
  IN CASE x.f = "req" -> q
       [] x.f = "all" ->
            IF x.ks = <<>> THEN Run(s, Give(Pop(q), Tuple(x.acc), <<>>), md)
            ELSE Run(s, AskKey(s, q, x.i, x.ks[1], md), md)
       [] x.f = "prov" ->
            LET ds == GenOf(s, x.b).reg[x.key].deps
            IN IF x.st = "body" \/ x.n = Len(ds) THEN q
               ELSE Run(s, AskDep(s, q, x.b, ds[x.n + 1], md), md)

Mode(q) == q[LastReq(q, Len(q))].o.md

Yes(m) == [m |-> m, no |-> ""]
No(m, why) == [m |-> m, no |-> why]

\* scope a request addresses
Where(s, o) == CASE o.op = "call" -> s.hn[o.h].sid [] OTHER -> Sid(s, o.at)

Wanted(s, o) == IF o.op = "call" THEN s.hn[o.h].key ELSE o.tok.key

Todo(s, o) == IF o.at = 0 THEN Roots(s) ELSE <<s.hs[o.at]>>
RECURSIVE Closing(_, _)
Closing(s, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE <<todo[1]>> \o Closing(s, Rev(s.sc[todo[1]].own) \o Tail(todo))

ReqFrame(o) ==
  [f |-> "req", o |-> o, v |-> <<>>, h |-> <<>>, cl |-> <<>>, left |-> <<>>]

Begin(c, m, t, o) ==
  LET q == m.th[t]
      s == m.s
      f == ReqFrame(IF o.op = "call" THEN [o EXCEPT !.md = s.hn[o.h].md] ELSE o)
  IN IF q # <<>> /\ ~(Top(q).f = "prov" /\ Top(q).st = "body")
     THEN No(m, "a request starts inside a container operation")
     ELSE IF o.op \in {"res", "call", "ent"} /\ ~Usable(s, Where(s, o))
     THEN Yes([m EXCEPT !.s.wild = TRUE])
     \* a type no template can serve: which fault is reported is left open
     ELSE IF o.op \in {"res", "call"} /\ Wanted(s, o) \in DOMAIN GenOf(s, Where(s, o)).bad
     THEN Yes([m EXCEPT !.s.wild = TRUE])
     ELSE CASE o.op = "res" ->
                 LET q1 == Append(q, f)
                     d  == [k |-> o.tok.k, key |-> o.tok.key, d |-> FALSE]
                 IN Yes([m EXCEPT !.th[t] = AskDep(s, q1, Where(s, o), d, o.md)])
            [] o.op = "call" ->
                 Yes([m EXCEPT !.th[t] = AskKey(s, Append(q, f), Where(s, o), s.hn[o.h].key, f.o.md)])
            [] o.op = "ent" -> Yes([m EXCEPT !.th[t] = Append(q, f)])
            [] o.op = "cls" ->
                 LET cl == Closing(s, Todo(s, o))
                     left == [n \in 1..Len(cl) |-> {s.stk[cl[n]][k].o : k \in 1..Len(s.stk[cl[n]])}]
                 IN Yes([m EXCEPT !.th[t] = Append(q, [f EXCEPT !.cl = cl, !.left = left, !.v = <<"ok">>])])

Called(c, m, t, e) ==
  IF m.th[t] = <<>> THEN No(m, "a provider runs although nothing was asked")
  ELSE
  LET s == m.s
      q == Run(s, m.th[t], Mode(m.th[t]))
      x == Top(q)
  IN IF x.f # "prov" \/ x.st = "body" THEN No(m, "no provider has to run here")
     ELSE LET r == GenOf(s, x.b).reg[x.key]
              args == Name(x.acc, Len(s.hn) + 1)
          IN IF r.pid # e.pid THEN No(m, "provider " \o Str(r.pid) \o " has to run")
             ELSE IF args # e.a THEN No(m, "its arguments have to be " \o Tuple(args))
             ELSE IF r.lt = "S" /\ <<x.b, x.key>> \in m.bld
               THEN No(m, "another actor is constructing this object")
             ELSE Yes([m EXCEPT
                   !.th[t] = SetTop(q, [x EXCEPT !.st = "body", !.o = s.oc + 1, !.acc = args]),
                   !.s.oc = @ + 1, !.s.hn = @ \o x.h,
                   !.bld = IF r.lt = "S" THEN @ \cup {<<x.b, x.key>>} ELSE @])

Delivered(c, m, t, e) ==
  LET q == m.th[t]
  IN IF q = <<>> \/ Top(q).f # "prov" \/ Top(q).st # "body" \/ Top(q).o # e.n
     THEN No(m, "no such provider call is in progress")
     ELSE LET x == Top(q)
              s == m.s
              r == GenOf(s, x.b).reg[x.key]
              v == IF r.rv = "n" THEN "n" ELSE "o" \o Str(x.o)
              own == Anc(s, x.b, r.sc)
              s1 == [s EXCEPT
                      !.made = Append(@, [o |-> x.o, pid |-> r.pid, key |-> x.key, at |-> x.b,
                                          own |-> own, lt |-> r.lt, args |-> x.acc,
                                          cl |-> r.kind \in {"g", "m"}]),
                      !.stk[own] = IF r.kind \in {"g", "m"}
                                   THEN Append(@, [o |-> x.o, pid |-> r.pid, as |-> r.as]) ELSE @,
                      !.cache = IF r.lt = "S" THEN (<<x.b, x.key>> :> v) @@ @ ELSE @]
          IN Yes([m EXCEPT !.s = s1, !.th[t] = Give(Pop(q), v, <<>>), !.bld = @ \ {<<x.b, x.key>>},
                           !.acq = (x.o :> [lo |-> m.ix + 1, hi |-> 0, t |-> t]) @@ @])

Raised(c, m, t, e) ==
  LET q == m.th[t]
  IN IF q = <<>> \/ Top(q).f # "prov" \/ Top(q).st # "body" \/ Top(q).o # e.n
     THEN No(m, "no such provider call is in progress")
     ELSE IF e.tag = "E:cancel" /\ t \notin m.can THEN No(m, "nobody cancelled this")
     ELSE LET x == Top(q)
          IN Yes([m EXCEPT !.th[t] = Fail(q, e.tag), !.bld = @ \ {<<x.b, x.key>>},
                           !.can = IF e.tag = "E:cancel" THEN @ \ {t} ELSE @])

\* index of the first scope that still holds something
FirstLeft(left) ==
  LET ns == {n \in 1..Len(left) : left[n] # {}}
  IN IF ns = {} THEN 0 ELSE CHOOSE n \in ns : \A k \in ns : n <= k

Released(c, m, t, e) ==
  LET q == m.th[t]
  IN IF q = <<>> \/ Top(q).f # "req" \/ Top(q).o.op # "cls" THEN No(m, "nothing is being closed")
     ELSE LET x == Top(q)
              n == FirstLeft(x.left)
          IN IF n = 0 THEN No(m, "nothing is left to release")
             ELSE IF e.o \notin x.left[n] THEN No(m, "one of " \o ToString(x.left[n]) \o " has to be released")
             ELSE IF \E o2 \in x.left[n] : m.acq[e.o].hi # 0 /\ m.acq[e.o].hi <= m.acq[o2].lo
               THEN No(m, "something acquired later is still held")
             ELSE Yes([m EXCEPT !.th[t] = SetTop(q, [x EXCEPT !.left[n] = @ \ {e.o}]),
                                !.s.stk[x.cl[n]] = SelectSeq(@, LAMBDA z : z.o # e.o),
                                !.s.rel = Append(@, [o |-> e.o, sid |-> x.cl[n]])])

Returned(c, m, t, e) ==
  IF m.th[t] = <<>> THEN No(m, "nothing was asked")
  ELSE
  LET s == m.s
      o == m.th[t][LastReq(m.th[t], Len(m.th[t]))].o
  IN CASE o.op \in {"res", "call"} ->
            LET q == Run(s, m.th[t], o.md)
                x == Top(q)
                b == m.th[t][Base(m.th[t], Len(m.th[t]))]
            IN IF e.r = "E:cancel" /\ t \in m.can /\ b.f = "req"
               THEN Yes([m EXCEPT !.can = @ \ {t},
                                  !.th[t] = SubSeq(@, 1, LastReq(@, Len(@)) - 1)])
               ELSE IF x.f # "req" THEN No(m, "the request is not finished")
               ELSE LET v == IF x.v[1] = "?" THEN "h" \o Str(Len(s.hn) + 1) ELSE x.v[1]
                    IN IF v # e.r THEN No(m, "the result has to be " \o v)
                       ELSE Yes([m EXCEPT !.th[t] = Pop(q), !.s.hn = @ \o x.h])
       [] o.op = "ent" ->
            LET y == EnterOp(c, s, o)
            IN IF e.r \notin y.r THEN No(m, "the result has to be in " \o ToString(y.r))
               ELSE Yes([m EXCEPT !.th[t] = Pop(@), !.s = y.s,
                                  !.s.hs = y.s.hs])
       [] o.op = "cls" ->
            LET x == Top(m.th[t])
            IN IF FirstLeft(x.left) # 0 THEN No(m, "resources are still held")
               ELSE IF e.r # "ok" THEN No(m, "closing has to succeed")
               ELSE Yes([m EXCEPT
                     !.th[t] = Pop(@),
                     !.s.sc = [i \in 1..Len(s.sc) |->
                                 IF i \in ToSet(x.cl) THEN [s.sc[i] EXCEPT !.open = FALSE] ELSE s.sc[i]],
                     !.s.cache = [d \in {d \in DOMAIN s.cache : d[1] \notin ToSet(x.cl) \/ s.sc[d[1]].par = 0}
                                    |-> s.cache[d]]])

Step(c, m0, e) ==
  LET t == e.t
      x == CASE e.e = "q"   -> Begin(c, m0, t, e.o)
             [] e.e = "b"   -> Called(c, m0, t, e)
             [] e.e = "k"   -> Delivered(c, m0, t, e)
             [] e.e = "x"   -> Raised(c, m0, t, e)
             [] e.e = "r"   -> Released(c, m0, t, e)
             [] e.e = "can" -> Yes([m0 EXCEPT !.can = @ \cup {t}])
             [] e.e = "ret" -> Returned(c, m0, t, e)
             [] e.e = "end" -> No(m0, "every request has to end: " \o e.why)
  IN [x EXCEPT !.m.ix = @ + 1,
               !.m.acq = [o \in DOMAIN x.m.acq |->
                            IF x.m.acq[o].t = t /\ x.m.acq[o].hi = 0 /\ x.m.acq[o].lo <= m0.ix
                            THEN [x.m.acq[o] EXCEPT !.hi = m0.ix + 1] ELSE x.m.acq[o]]]

Monitor(s, actors) ==
  [s |-> s, th |-> [t \in 0..actors |-> <<>>], bld |-> {}, acq |-> EmptyF, can |-> {}, ix |-> 0]

\* P08 P09 as state predicates
ConcurrentlySafe(m) ==
  /\ OneObjectPerScope(m.s)
  /\ ReleasedOnce(m.s)
  /\ ClosedIsEmpty(m.s)
  /\ BuiltWhereItLives(m.s)
  /\ NoCapture(m.s)
=============================================================================
