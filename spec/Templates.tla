----------------------------- MODULE Templates -----------------------------
(* Type terms, and which registration for open generic types serves a closed
   one.  A term is
     <<"v", n>>          type variable n
     <<"c", t>>          plain type t
     <<"g", g, args>>    generic type g applied to a sequence of terms
   and in a bound or constraint also <<"any">>.

   u: the types of a history
     vars  sequence of [v, cons]: what type variable v is restricted to, one of
           the sequence cons (a bound is a single one); variables without
           restrictions are not listed
     uni   sequence of [t, of]: plain type t is the union of the terms of
     nty   sequence of [t, of]: plain type t is a distinct name for of[1]
     sub   pairs <<a, b>>: a is a subclass of b, a # b (g stands as GenBase + g)
     terms sequence of [t, tm]: the number given to each closed term          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

GenBase == 9000

NoBinding == [v \in {} |-> <<>>]
RECURSIVE Match(_, _, _), MatchAll(_, _, _)
\* bindings of the variables of pattern p that turn it into term x, given
\* bindings m: <<>> or <<bindings>>
Match(p, x, m) ==
  CASE p[1] = "v" -> IF p[2] \notin DOMAIN m THEN <<(p[2] :> x) @@ m>>
                     ELSE IF m[p[2]] = x THEN <<m>> ELSE <<>>
    [] p[1] = "c" -> IF x = p THEN <<m>> ELSE <<>>
    [] p[1] = "g" -> IF x[1] = "g" /\ x[2] = p[2] /\ Len(x[3]) = Len(p[3])
                     THEN MatchAll(p[3], x[3], m) ELSE <<>>
MatchAll(ps, xs, m) ==
  IF ps = <<>> THEN <<m>>
  ELSE LET h == Match(ps[1], xs[1], m)
       IN IF h = <<>> THEN <<>> ELSE MatchAll(Tail(ps), Tail(xs), h[1])

RECURSIVE Subst(_, _)
Subst(p, m) == CASE p[1] = "v" -> IF p[2] \in DOMAIN m THEN m[p[2]] ELSE p
                 [] p[1] = "c" -> p
                 [] p[1] = "g" -> <<"g", p[2], [i \in 1..Len(p[3]) |-> Subst(p[3][i], m)]>>
RECURSIVE IsClosed(_)
IsClosed(p) == CASE p[1] = "v" -> FALSE
                 [] p[1] = "c" -> TRUE
                 [] p[1] = "g" -> \A i \in 1..Len(p[3]) : IsClosed(p[3][i])

\* how specific a pattern is: types named outweigh variables
RECURSIVE Weight(_), WeightAll(_)
Weight(p) == CASE p[1] = "v" -> 0 [] p[1] = "c" -> 2 [] p[1] = "g" -> 1 + WeightAll(p[3])
WeightAll(ps) == IF ps = <<>> THEN 0 ELSE Weight(ps[1]) + WeightAll(Tail(ps))

Origin(x) == IF x[1] = "g" THEN GenBase + x[2] ELSE x[2]
Parts(q, x) == IF x[1] = "c" /\ \E i \in 1..Len(q) : q[i].t = x[2]
               THEN q[CHOOSE i \in 1..Len(q) : q[i].t = x[2]].of ELSE <<>>
RECURSIVE Satisfies(_, _, _)
Satisfies(u, x, con) ==
  LET some == Parts(u.uni, x)
      alts == Parts(u.uni, con)
      base == Parts(u.nty, x)
  IN CASE con[1] = "any" \/ x = con -> TRUE
       [] some # <<>> -> \A i \in 1..Len(some) : Satisfies(u, some[i], con)
       [] alts # <<>> -> \E i \in 1..Len(alts) : Satisfies(u, x, alts[i])
       [] base # <<>> -> Satisfies(u, base[1], con)
       [] OTHER -> Origin(x) = Origin(con)
                   \/ \E i \in 1..Len(u.sub) : u.sub[i] = <<Origin(x), Origin(con)>>
Admissible(u, m) ==
  \A i \in 1..Len(u.vars) :
     u.vars[i].v \in DOMAIN m =>
        \E j \in 1..Len(u.vars[i].cons) : Satisfies(u, m[u.vars[i].v], u.vars[i].cons[j])

NumberOf(u, x) ==
  IF x[1] = "c" THEN x[2]
  ELSE u.terms[CHOOSE i \in 1..Len(u.terms) : u.terms[i].tm = x].t

\* Which of the patterns (i -> pattern, registered in order ord[i]) serves the
\* closed term x: [i, m], i = -2 when none matches, i = -1 when those that match
\* do not admit its arguments.
Serving(u, pat, ord, x) ==
  LET b == [i \in DOMAIN pat |-> Match(pat[i], x, NoBinding)]
      hit == {i \in DOMAIN pat : b[i] # <<>>}
      good == {i \in hit : Admissible(u, b[i][1])}
      top == {i \in good : \A j \in good : Weight(pat[j]) <= Weight(pat[i])}
      best == CHOOSE i \in top : \A j \in top : ord[j] <= ord[i]
  IN IF good # {} THEN [i |-> best, m |-> b[best][1]]
     ELSE [i |-> IF hit = {} THEN -2 ELSE -1, m |-> NoBinding]
=============================================================================
