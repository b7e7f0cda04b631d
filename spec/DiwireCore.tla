----------------------------- MODULE DiwireCore -----------------------------
(* The dependency-injection container as a state machine.

   One record `s` holds the whole abstract state; every public operation is an
   operator  Op(c, s, o)  ->  [s |-> next state, r |-> set of allowed results,
   ev |-> the provider events it causes, in order].  The same operators serve
   exhaustive checking (CoreMC), behaviour generation (CoreGen) and validation
   of recorded executions (CoreTrace).

   Keys are numbers t*10+n: type t, component n (0 = unqualified).  Keys from
   Alias up are the private keys of the inner layers of a decorated key.
   Closed generic types are types like any other.  Those not registered by
   themselves may be served by a template, a registration for an open generic
   type (module Templates); compiling turns what a template offers for each
   closed key into an entry of the compiled table, with stamp 0.
   Values are strings: o<n> n-th constructed object, i<p> instance registered
   by operation p, c<n> context value, h<n> lazy handle, d parameter default,
   n nothing, t<n> a type given as an argument, (..) collection.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Scopes, Templates

Alias == 100000
TypeOf(k) == k \div 10
Str(n) == ToString(n)
EmptyF == [x \in {} |-> 0]

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1]
           ELSE q[1] \o "," \o Join(Tail(q))
Tuple(q) == "(" \o Join(q) \o ")"

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
ToSet(q) == {q[i] : i \in 1..Len(q)}

(* ------------------------------------------------------------------------ *)
(* Registration table: reg : key -> [pid, kind, as, deps, sc, lt, rv, st]    *)
(*   kind  c class  f factory  g generator  m context manager  i instance    *)
(*   deps  sequence of [k, key, d]: k is p plain, f plain with a default     *)
(*         used when unregistered, m optional, a collection, h/g lazy sync/  *)
(*         async handle, v/w optional handle, x context value, y optional    *)
(*         context value; d: the parameter has a default                     *)
(*   in templates also t type argument, u pattern left open; their deps have   *)
(*   tm |-> the type's pattern, n |-> its component, al |-> the layer of the   *)
(*   template's own chain that is meant, or -1                                *)
(* ------------------------------------------------------------------------ *)
\* the arguments a provider wrapped by inject gets from its wrapper, after those
\* that are dependencies of the registration; auto: it may open a scope to do so
InjOf(r) == IF "inj" \in DOMAIN r THEN r.inj ELSE <<>>
AutoOf(r) == IF "auto" \in DOMAIN r THEN r.auto ELSE FALSE
RECURSIVE InOrder(_, _)
\* keys ks by the stamp of their latest registration
InOrder(reg, ks) ==
  IF ks = {} THEN <<>>
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : reg[x].st <= reg[y].st
       IN <<k>> \o InOrder(reg, ks \ {k})
Listed(reg, t) == {k \in DOMAIN reg : k < Alias /\ TypeOf(k) = t /\ reg[k].st > 0}
AllKeys(reg, t) == InOrder(reg, Listed(reg, t))

\* keys a provider needs before it can run
EagerOf(reg, d) ==
  CASE d.k = "p" -> {d.key}
    [] d.k \in {"m", "f"} -> {d.key} \cap DOMAIN reg
    [] d.k = "a" -> Listed(reg, TypeOf(d.key))
    [] OTHER -> {}
Eager(reg, k) == UNION {EagerOf(reg, reg[k].deps[i]) : i \in 1..Len(reg[k].deps)}

\* ---- analysis of a registration table (what compiling establishes) ----
Missing(reg) ==
  \E k \in DOMAIN reg : \E i \in 1..Len(reg[k].deps) :
     reg[k].deps[i].k \in {"p", "h", "g"} /\ reg[k].deps[i].key \notin DOMAIN reg
DeepHandle(reg) ==
  \E k \in DOMAIN reg : \E i \in 1..Len(reg[k].deps) :
     LET d == reg[k].deps[i]
     IN d.k \in {"h", "g", "v", "w"} /\ d.key \in DOMAIN reg /\ reg[d.key].sc > reg[k].sc

\* keys from which every eager path ends (no cycle below); fixpoint
RECURSIVE Grounded(_, _)
Grounded(reg, ok) ==
  LET nxt == {k \in DOMAIN reg : Eager(reg, k) \cap DOMAIN reg \subseteq ok}
  IN IF nxt = ok THEN ok ELSE Grounded(reg, nxt)
Cyclic(reg) == Grounded(reg, {}) # DOMAIN reg

CompileErrors(reg) ==
  (IF Missing(reg) THEN {"E:NotRegistered"} ELSE {}) \cup
  (IF Cyclic(reg) \/ DeepHandle(reg) THEN {"E:InvalidSpec"} ELSE {})

RECURSIVE AsyncClosure(_, _)
AsyncClosure(reg, a) ==
  LET nxt == a \cup {k \in DOMAIN reg : Eager(reg, k) \cap a # {}}
  IN IF nxt = a THEN a ELSE AsyncClosure(reg, nxt)
AsyncKeys(reg) == AsyncClosure(reg, {k \in DOMAIN reg : reg[k].as})

RECURSIVE DeepKeys(_, _, _)
\* keys that reach a provider of a scope deeper than their own
DeepKeys(reg, lvl, a) ==
  LET nxt == a \cup {k \in DOMAIN reg : reg[k].sc > lvl \/ Eager(reg, k) \cap a # {}}
  IN IF nxt = a THEN a ELSE DeepKeys(reg, lvl, nxt)
Deeper(reg) == {k \in DOMAIN reg : k \in DeepKeys(reg, reg[k].sc, {})}

(* ------------------------------------------------------------------------ *)
(* Templates: tpl : 20 * x + layer -> registration with ord, the order of     *)
(* registration.  x numbers the open keys (c.gen.tpls: [tm, n]); layer 0 is   *)
(* what serves requests, layer i the i-th of a decorated template, 1 the base.*)
(* ------------------------------------------------------------------------ *)
TKey(x, layer) == 20 * x + layer
TemplatesOf(tpl) == {q \div 20 : q \in DOMAIN tpl}
\* dependency d of the template serving `key` under bindings m
Bind(u, d, m, key) ==
  LET x == Subst(d.tm, m)
  IN IF d.al >= 0 THEN [k |-> "p", key |-> Alias + key * 20 + d.al, d |-> d.d]
     ELSE IF ~IsClosed(x) THEN [k |-> "u", key |-> 0, d |-> d.d]
     ELSE [k |-> d.k, key |-> NumberOf(u, x) * 10 + d.n, d |-> d.d]
Entry(u, r, m, key) ==
  [ pid |-> r.pid, kind |-> r.kind, as |-> r.as, sc |-> r.sc, lt |-> r.lt, rv |-> r.rv, st |-> 0,
    inj |-> InjOf(r), auto |-> AutoOf(r),
    deps |-> [i \in 1..Len(r.deps) |-> Bind(u, r.deps[i], m, key)] ]
Invalid == [pid |-> 0, kind |-> "e", as |-> FALSE, sc |-> 0, lt |-> "T", rv |-> "o", st |-> 0,
            deps |-> <<>>]
\* what the templates offer for closed term x with component n, under `key`
Offer(u, tpls, tpl, x, n, key) ==
  LET xs == {y \in TemplatesOf(tpl) : tpls[y + 1].n = n}
      w == Serving(u, [y \in xs |-> tpls[y + 1].tm], [y \in xs |-> tpl[TKey(y, 0)].ord], x)
      ls == {q - 20 * w.i : q \in {z \in DOMAIN tpl : z \div 20 = w.i}}
  IN IF w.i = -2 THEN EmptyF
     ELSE IF w.i = -1 THEN (key :> Invalid)
     ELSE [k \in {IF l = 0 THEN key ELSE Alias + key * 20 + l - 1 : l \in ls} |->
             Entry(u, tpl[TKey(w.i, IF k = key THEN 0 ELSE k - Alias - key * 20 + 1)], w.m, key)]
RECURSIVE Merge(_)
Merge(fs) == IF fs = {} THEN EmptyF
             ELSE LET f == CHOOSE f \in fs : TRUE IN f @@ Merge(fs \ {f})
\* registrations never see what templates offer: what they may do without
\* stays absent
Closed(reg) ==
  [k \in DOMAIN reg |->
     [reg[k] EXCEPT !.deps = [i \in 1..Len(@) |->
        IF @[i].k \in {"m", "f", "v", "w"} /\ @[i].key \notin DOMAIN reg
        THEN [@[i] EXCEPT !.key = 0] ELSE @[i]]]]
\* the table requests are answered from
Full(u, tpls, tpl, reg) ==
  IF tpl = EmptyF THEN reg
  ELSE Closed(reg) @@
       Merge({Offer(u, tpls, tpl, u.terms[i].tm, n, u.terms[i].t * 10 + n) :
                <<i, n>> \in {q \in (1..Len(u.terms)) \X {tpls[x + 1].n : x \in TemplatesOf(tpl)} :
                               u.terms[q[1]].t * 10 + q[2] \notin DOMAIN reg}})

RECURSIVE Faults(_, _, _), FaultsOf(_, _, _, _)
\* why an offered key is refused before anything runs, in the order met: a
\* type argument its template does not admit or cannot find, something missing,
\* a dependency on itself
Faults(full, k, path) ==
  IF full[k].st > 0 THEN <<>>
  ELSE IF full[k].kind = "e" THEN <<"E:Generic">>
  ELSE IF k \in path THEN <<"E:InvalidSpec">>
  ELSE FaultsOf(full, full[k].deps, 1, path \cup {k})
FaultsOf(full, deps, i, path) ==
  IF i > Len(deps) THEN <<>>
  ELSE LET d == deps[i]
       IN (IF d.k = "u" THEN <<"E:Generic">>
           ELSE IF d.k \in {"p", "m", "f"} /\ d.key \in DOMAIN full THEN Faults(full, d.key, path)
           ELSE IF d.k = "p" THEN <<"E:NotRegistered">> ELSE <<>>)
          \o FaultsOf(full, deps, i + 1, path)

(* ------------------------------------------------------------------------ *)
(* State                                                                     *)
(* ------------------------------------------------------------------------ *)
\* c: configuration [lad, mp, dp, dl, cls, gen]; a class of c.cls may be
\* autoregistered [ok], with dependencies, or it holds settings [set]
Classes(cs) ==
  [t \in {cs[i].t : i \in 1..Len(cs)} |->
     LET e == cs[CHOOSE i \in 1..Len(cs) : cs[i].t = t]
     IN [deps |-> e.deps, ok |-> e.ok, set |-> IF "set" \in DOMAIN e THEN e.set ELSE FALSE]]
InitState ==
  [ reg   |-> EmptyF,     \* key -> registration
    st    |-> 0,          \* registration stamp
    rules |-> EmptyF,     \* key -> sequence of decorator rules
    chain |-> {},         \* keys whose chain is built
    tpl   |-> EmptyF,     \* templates
    trul  |-> EmptyF,     \* open key -> sequence of decorator rules
    tchn  |-> {},         \* open keys whose chain is built
    gens  |-> <<>>,       \* compiled graphs
    cur   |-> 0,          \* current one, 0 = to be compiled
    sc    |-> <<>>,       \* scopes ever opened, roots included
    hs    |-> <<>>,       \* scope handles given to the caller -> scope
    cache |-> EmptyF,     \* <<scope, key>> -> value
    stk   |-> <<>>,       \* scope -> pending releases, oldest first
    hn    |-> <<>>,       \* lazy handles
    oc    |-> 0,          \* objects constructed
    made  |-> <<>>,       \* history: constructed objects
    rel   |-> <<>>,       \* history: released objects
    wild  |-> FALSE ]     \* left the specified domain

Lvl(s, i) == s.sc[i].lvl
GenOf(s, i) == s.gens[s.sc[i].g]

RECURSIVE Anc(_, _, _)
Anc(s, i, lvl) == IF i = 0 THEN 0
                  ELSE IF s.sc[i].lvl = lvl THEN i
                  ELSE Anc(s, s.sc[i].par, lvl)
RECURSIVE Lookup(_, _, _)
\* context value visible from scope i: <<>> or <<value>>
Lookup(s, i, ck) == IF i = 0 THEN <<>>
                    ELSE IF ck \in DOMAIN s.sc[i].ctx THEN <<s.sc[i].ctx[ck]>>
                    ELSE Lookup(s, s.sc[i].par, ck)
RECURSIVE Chain(_, _)
Chain(s, i) == IF i = 0 THEN {} ELSE {i} \cup Chain(s, s.sc[i].par)
Usable(s, i) == \A j \in Chain(s, i) : s.sc[j].open

(* ------------------------------------------------------------------------ *)
(* Resolution.  Result record [s, v, e, ev]; e = "" when it succeeded.       *)
(* F: [fc |-> providers that raise, fr |-> releases that raise]              *)
(* ------------------------------------------------------------------------ *)
Ok(s, v, ev)  == [s |-> s, v |-> v, e |-> "", ev |-> ev]
Err(s, e, ev) == [s |-> s, v |-> "", e |-> e, ev |-> ev]

\* A lazy handle: a value the caller first sees when the provider receiving it
\* is called (or the request returns); it gets its name at that moment.
HandleFor(s, key, md, i) ==
  [s |-> s, v |-> "?", e |-> "", ev |-> <<>>, h |-> <<[key |-> key, md |-> md, sid |-> i]>>]
HandlesOf(x) == IF "h" \in DOMAIN x THEN x.h ELSE <<>>
RECURSIVE Name(_, _)
Name(v, n) == IF v = <<>> THEN <<>>
              ELSE IF v[1] = "?" THEN <<"h" \o Str(n)>> \o Name(Tail(v), n + 1)
              ELSE <<v[1]>> \o Name(Tail(v), n)

Absent(s, d) == Ok(s, IF d.d THEN "d" ELSE "n", <<>>)

\* A synchronous request for an already constructed asynchronous object may
\* either be refused or return it (left open on purpose): mode "c" is the
\* synchronous mode that returns it.
CachedAsync(s, i, tok) ==
  LET g == GenOf(s, i)
      ks == IF tok.k = "a" THEN ToSet(AllKeys(g.reg, TypeOf(tok.key)))
            ELSE IF tok.k \in {"p", "m"} THEN {k \in {tok.key} \cap DOMAIN g.reg : g.reg[k].st > 0}
            ELSE {}
  IN {k \in ks \cap g.as : g.reg[k].lt = "S" /\ <<Anc(s, i, g.reg[k].sc), k>> \in DOMAIN s.cache}
\* the argument whose handle a provider calls before it returns (0: none)
NestOf(r) == IF "nest" \in DOMAIN r THEN r.nest ELSE 0
RECURSIVE Touched(_, _)
\* the keys of ks and all that is needed for them, called or not
Touched(reg, ks) ==
  LET of(d) == IF d.k = "a" THEN Listed(reg, TypeOf(d.key))
               ELSE IF d.k \in {"p", "f", "m", "h", "g", "v", "w"} THEN {d.key} ELSE {}
      all(k) == ToSet(reg[k].deps \o InjOf(reg[k]))
      nxt == ks \cup UNION {UNION {of(d) : d \in all(k)} : k \in ks \cap DOMAIN reg}
  IN IF nxt = ks THEN ks ELSE Touched(reg, nxt)
\* filling the arguments of r at a scope of level lvl may open a deeper scope
MayOpen(reg, r, lvl) ==
  LET pre == [x \in {-1} |-> [deps |-> InjOf(r), sc |-> 0]] @@ reg
  IN AutoOf(r) /\ \E k \in Touched(pre, {-1}) \cap DOMAIN reg : reg[k].sc > lvl

RECURSIVE Get(_, _, _, _, _), Build(_, _, _, _, _), Args(_, _, _, _, _, _),
          Arg(_, _, _, _, _), Elems(_, _, _, _, _),
          Supplied(_, _, _, _, _), Injections(_, _, _, _, _),
          Nested(_, _, _, _, _), Request(_, _, _, _, _)

\* the object of `key` as seen from scope i
Get(s, i, key, md, F) ==
  LET g == GenOf(s, i)
      r == g.reg[key]
      L == Lvl(s, i)
  IN IF key \in DOMAIN g.bad THEN Err(s, g.bad[key][1], <<>>)
     ELSE IF r.kind = "i" THEN Ok(s, IF r.rv = "n" THEN "n" ELSE "i" \o Str(r.pid), <<>>)
     ELSE IF r.st = 0 /\ md # "a" /\ key \in g.as THEN Err(s, "E:Async", <<>>)
     ELSE IF r.sc > L THEN Err(s, "E:Scope", <<>>)
     ELSE LET own == Anc(s, i, r.sc)
          IN IF own = 0 THEN Err(s, "E:Scope", <<>>)
             ELSE IF r.lt = "S"
               THEN IF md = "s" /\ key \in g.as THEN Err(s, "E:Async", <<>>)
                    ELSE IF <<own, key>> \in DOMAIN s.cache
                      THEN Ok(s, s.cache[<<own, key>>], <<>>)
                    ELSE IF md # "a" /\ key \in g.as THEN Err(s, "E:Async", <<>>)
                    ELSE Build(s, own, key, md, F)
               ELSE IF md # "a" /\ key \in g.as THEN Err(s, "E:Async", <<>>)
                    ELSE Build(s, IF key \in g.deep THEN i ELSE own, key, md, F)

\* run the provider of `key` at scope b
Build(s, b, key, md, F) ==
  LET r == GenOf(s, b).reg[key]
      a0 == Args(s, b, r.deps, md, F, <<>>)
      t == IF MayOpen(s.reg, r, Lvl(s, b)) \/ MayOpen(GenOf(s, b).reg, r, Lvl(s, b))
                \/ (AutoOf(r) /\ s.tpl # EmptyF)
                \* the body of an asynchronous manager could wait, its wrapper cannot
                \/ (r.as /\ r.kind # "f" /\ ToSet(InjOf(r)) # {} /\ GenOf(s, b).as # {})
           THEN [a0.s EXCEPT !.wild = TRUE] ELSE a0.s
      j == Injections(t, b, InjOf(r), IF r.as /\ r.kind = "f" THEN "a" ELSE "s", F)
      a == IF a0.e # "" \/ InjOf(r) = <<>> THEN a0
           ELSE [j EXCEPT !.v = a0.v \o @, !.ev = a0.ev \o @, !.h = a0.h \o @]
      args == Name(a.v, Len(a.s.hn) + 1)
      x == Nested([a.s EXCEPT !.hn = @ \o a.h], r, a.v, Len(a.s.hn), F)
  IN IF a.e # "" THEN [s |-> a.s, v |-> "", e |-> a.e, ev |-> a.ev]
     ELSE IF x.e # "" THEN Err(x.s, x.e, a.ev \o x.ev)
     ELSE LET s0   == x.s
              call == "p" \o Str(r.pid) \o Tuple(args) \o x.v
              ev   == a.ev \o x.ev
          IN IF r.pid \in F.fc
             THEN Err(s0, "E:boom" \o Str(r.pid), Append(ev, "f " \o call))
             ELSE LET n   == s0.oc + 1
                      v   == IF r.rv = "n" THEN "n" ELSE "o" \o Str(n)
                      s1  == [s0 EXCEPT
                                !.oc = n,
                                !.made = Append(@, [o |-> n, pid |-> r.pid, key |-> key,
                                   at |-> b, own |-> Anc(s, b, r.sc), lt |-> r.lt,
                                   args |-> args, cl |-> r.kind \in {"g", "m"}])]
                      s2  == IF r.kind \in {"g", "m"}
                             THEN [s1 EXCEPT !.stk[Anc(s, b, r.sc)] =
                                     Append(@, [o |-> n, pid |-> r.pid, as |-> r.as])]
                             ELSE s1
                      s3  == IF r.lt = "S"
                             THEN [s2 EXCEPT !.cache = (<<b, key>> :> v) @@ @]
                             ELSE s2
                  IN Ok(s3, v, Append(ev, "n " \o call \o "o" \o Str(n)))

\* A provider may call one of the handles it got before it returns (nest is the
\* number of that argument); `had` handles existed before it got its arguments.
Nested(s, r, v, had, F) ==
  LET n == NestOf(r)
  IN IF n = 0 THEN Ok(s, "", <<>>)
     ELSE IF v[n] # "?" THEN Ok(s, "", <<>>)
     ELSE LET h == s.hn[had + Cardinality({i \in 1..n : v[i] = "?"})]
              t == IF CachedAsync(s, h.sid, [k |-> "p", key |-> h.key]) = {} \/ h.md # "s" THEN s
                   ELSE [s EXCEPT !.wild = TRUE]
              b == GenOf(t, h.sid).bad
              t2 == IF h.key \in DOMAIN b /\ Cardinality(ToSet(b[h.key])) > 1
                    THEN [t EXCEPT !.wild = TRUE] ELSE t
              x == Request(t2, h.sid, [k |-> "p", key |-> h.key], h.md, F)
          IN IF x.e # "" THEN x ELSE [x EXCEPT !.v = "[" \o @ \o "]"]

\* what the wrapper of an injected callable supplies for one of its parameters
Supplied(s, b, d, md, F) ==
  LET has == d.key \in DOMAIN GenOf(s, b).reg
  IN CASE d.k = "m" -> IF has THEN Request(s, b, [k |-> "p", key |-> d.key], md, F) ELSE Absent(s, d)
       [] d.k = "y" -> LET v == Lookup(s, b, d.key) IN IF v # <<>> THEN Ok(s, v[1], <<>>) ELSE Absent(s, d)
       [] d.k \in {"v", "w"} ->
            IF ~has THEN Absent(s, d)
            ELSE IF GenOf(s, b).reg[d.key].kind = "e" THEN Err(s, "E:Generic", <<>>)
            ELSE HandleFor(s, d.key, IF d.k = "v" THEN "s" ELSE "a", b)
       [] OTHER -> Request(s, b, [k |-> d.k, key |-> d.key], md, F)
\* not decided here: several reasons to refuse, constructed asynchronous objects
Unsettled(s, b, d, md) ==
  \/ d.k \in {"p", "m"} /\ d.key \in DOMAIN GenOf(s, b).bad
     /\ Cardinality(ToSet(GenOf(s, b).bad[d.key])) > 1
  \/ md = "s" /\ d.k \in {"p", "m", "a"}
     /\ CachedAsync(s, b, [k |-> d.k, key |-> d.key]) # {}

Injections(s, b, ds, md, F) ==
  IF ds = <<>> THEN [s |-> s, v |-> <<>>, e |-> "", ev |-> <<>>, h |-> <<>>]
  ELSE LET t == IF Unsettled(s, b, ds[1], md) THEN [s EXCEPT !.wild = TRUE] ELSE s
           x == Supplied(t, b, ds[1], md, F)
       IN IF x.e # "" THEN [s |-> x.s, v |-> <<>>, e |-> x.e, ev |-> x.ev, h |-> <<>>]
          ELSE LET y == Injections(x.s, b, Tail(ds), md, F)
               IN [y EXCEPT !.v = <<x.v>> \o @, !.ev = x.ev \o @, !.h = HandlesOf(x) \o @]

\* arguments, left to right; v is the sequence of values, h of new handles
Args(s, b, deps, md, F, acc) ==
  IF deps = <<>> THEN [s |-> s, v |-> acc, e |-> "", ev |-> <<>>, h |-> <<>>]
  ELSE LET x == Arg(s, b, deps[1], md, F)
       IN IF x.e # "" THEN x @@ [h |-> <<>>]
          ELSE LET y == Args(x.s, b, Tail(deps), md, F, Append(acc, x.v))
               IN [y EXCEPT !.ev = x.ev \o y.ev, !.h = HandlesOf(x) \o y.h]

Arg(s, b, d, md, F) ==
  LET reg == GenOf(s, b).reg
      has == d.key \in DOMAIN reg
  IN CASE d.k = "p" -> IF has THEN Get(s, b, d.key, md, F) ELSE Err(s, "E:NotRegistered", <<>>)
       [] d.k = "m" -> IF has THEN Get(s, b, d.key, md, F) ELSE Absent(s, d)
       [] d.k = "f" -> IF has THEN Get(s, b, d.key, md, F) ELSE Ok(s, "d", <<>>)
       [] d.k = "a" -> LET x == Elems(s, b, AllKeys(reg, TypeOf(d.key)), md, F)
                       IN IF x.e # "" THEN x ELSE [x EXCEPT !.v = Tuple(@)]
       [] d.k = "h" -> HandleFor(s, d.key, "s", b)
       [] d.k = "g" -> HandleFor(s, d.key, "a", b)
       [] d.k \in {"v", "w"} ->
            IF ~has THEN Absent(s, d)
            ELSE IF reg[d.key].kind = "e" THEN Err(s, "E:Generic", <<>>)
            ELSE HandleFor(s, d.key, IF d.k = "v" THEN "s" ELSE "a", b)
       [] d.k = "t" -> Ok(s, "t" \o Str(TypeOf(d.key)), <<>>)
       [] d.k = "x" -> LET c == Lookup(s, b, d.key)
                       IN IF c # <<>> THEN Ok(s, c[1], <<>>) ELSE Err(s, "E:NotRegistered", <<>>)
       [] d.k = "y" -> LET c == Lookup(s, b, d.key)
                       IN IF c # <<>> THEN Ok(s, c[1], <<>>) ELSE Absent(s, d)

Elems(s, b, ks, md, F) ==
  IF ks = <<>> THEN [s |-> s, v |-> <<>>, e |-> "", ev |-> <<>>]
  ELSE LET x == Get(s, b, ks[1], md, F)
       IN IF x.e # "" THEN x
          ELSE LET y == Elems(x.s, b, Tail(ks), md, F)
               IN IF y.e # "" THEN [y EXCEPT !.ev = x.ev \o @]
                  ELSE [y EXCEPT !.v = <<x.v>> \o @, !.ev = x.ev \o @]

\* a request made by the user at scope i; tok = [k, key]
Request(s, i, tok, md, F) ==
  CASE tok.k = "h" \/ (tok.k = "v" /\ ~GenOf(s, i).open) -> HandleFor(s, tok.key, "s", i)
    [] tok.k = "g" \/ (tok.k = "w" /\ ~GenOf(s, i).open) -> HandleFor(s, tok.key, "a", i)
    [] OTHER -> Arg(s, i, [k |-> tok.k, key |-> tok.key, d |-> FALSE], md, F)

(* ------------------------------------------------------------------------ *)
(* Operations.  Out(s, r, ev): r is the set of allowed results; alt holds a   *)
(* further allowed outcome, if there is one.                                 *)
(* ------------------------------------------------------------------------ *)
Out(s, r, ev) == [s |-> s, r |-> r, ev |-> ev, alt |-> <<>>]
Wild(s) == Out([s EXCEPT !.wild = TRUE], {}, <<>>)
NoF == [fc |-> {}, fr |-> {}]
\* what the caller of a request sees; a new handle gets its name now
AsOut(x) ==
  LET v == Name(<<x.v>>, Len(x.s.hn) + 1)[1]
  IN Out([x.s EXCEPT !.hn = @ \o HandlesOf(x)], {IF x.e = "" THEN v ELSE x.e}, x.ev)

\* Known finding F8: a direct optional request whose registered provider fails
\* because something it needs is not supplied may yield nothing instead of the
\* error, after trying once more (Retry).
SwallowedAlt(s, i, x, tok) ==
  IF tok.k = "m" /\ x.r = {"E:NotRegistered"} /\ ~GenOf(s, i).open THEN {"n"} ELSE {}
AskAt(s, i, tok, md, F) ==
  LET x == AsOut(Request(s, i, tok, md, F))
      sw == SwallowedAlt(s, i, x, tok)
      bad == GenOf(s, i).bad
      y == [x EXCEPT !.r = IF tok.k \in {"p", "m"} /\ tok.key \in DOMAIN bad
                           THEN ToSet(bad[tok.key]) ELSE @ \cup sw,
                     !.alt = IF sw = {} THEN <<>>
                             ELSE LET z == AsOut(Request(x.s, i, tok, md, F))
                                  IN <<[z EXCEPT !.r = SwallowedAlt(s, i, z, tok), !.ev = x.ev \o z.ev]>>]
      n == IF md = "s" THEN Cardinality(CachedAsync(s, i, tok)) ELSE 0
  IN IF sw # {} /\ Len(x.s.hn) > Len(s.hn) THEN Wild(s)   \* a handle was called in vain
     ELSE IF n = 0 THEN y
     ELSE IF n = 1 THEN [y EXCEPT !.alt = <<AsOut(Request(s, i, tok, "c", F))>>]
     ELSE Wild(s)

\* ---- registration ----
Layer(key, base, rule, inner, outk, st) ==
  [ pid |-> rule.pid, kind |-> "f", as |-> rule.as,
    deps |-> [i \in 1..Len(rule.deps) |->
                IF i = rule.inn THEN [k |-> "p", key |-> inner, d |-> FALSE] ELSE rule.deps[i]],
    sc |-> base.sc, lt |-> base.lt, rv |-> "o", st |-> st, nest |-> NestOf(rule),
    inj |-> InjOf(rule), auto |-> AutoOf(rule) ]

LayerKey(key, i, n) == IF i = n THEN key ELSE Alias + key * 20 + i

\* settings are values of the whole container, whoever needs them first
RegisterClass(c, t, sc, lt) ==
  LET set == c.cls[t].set
  IN [ pid |-> 1000 + t, kind |-> IF set THEN "f" ELSE "c", as |-> FALSE, deps |-> c.cls[t].deps,
       sc |-> IF set THEN RootLevel(c.lad) ELSE sc, lt |-> IF set THEN "S" ELSE lt,
       rv |-> "o", st |-> 0 ]
Eligible(c, key) == key % 10 = 0 /\ TypeOf(key) \in DOMAIN c.cls /\ c.cls[TypeOf(key)].ok

RECURSIVE Add(_, _, _, _, _), AutoDeps(_, _, _, _, _, _), Layers(_, _, _, _, _)

\* key of the autoregistration candidate of a dependency, 0 if none
Candidate(d) == IF d.k \in {"p", "f", "h", "g", "v", "w"} THEN d.key ELSE 0

\* put provider r under key, then its missing dependencies (pol), then the
\* decorators declared for key
Add(c, s, key, r, pol) ==
  LET inchain == key \in s.chain
      tgt == IF inchain THEN Alias + key * 20 ELSE key
      s1 == [s EXCEPT !.reg = (tgt :> [r EXCEPT !.st = s.st + 1]) @@ @, !.st = @ + 1, !.cur = 0]
      s2 == AutoDeps(c, s1, r.deps, r.sc, r.lt, pol)
  IN IF key \in DOMAIN s2.rules
     THEN LET s3 == IF inchain THEN s2
                    ELSE [s2 EXCEPT
                           !.reg = ((Alias + key * 20) :> s2.reg[key]) @@ @,
                           !.chain = @ \cup {key}]
          IN Layers(c, s3, key, 1, s3.reg[Alias + key * 20])
     ELSE s2

AutoDeps(c, s, deps, sc, lt, pol) ==
  IF deps = <<>> \/ pol = "i" THEN s
  ELSE LET k == Candidate(deps[1])
           s1 == IF k = 0 \/ k \in DOMAIN s.reg \/ ~Eligible(c, k) THEN s
                 ELSE Add(c, s, k, RegisterClass(c, TypeOf(k), sc, lt), "r")
       IN AutoDeps(c, s1, Tail(deps), sc, lt, pol)

Layers(c, s, key, i, base) ==
  LET n == Len(s.rules[key])
  IN IF i > n THEN s
     ELSE LET inner == IF i = 1 THEN Alias + key * 20 ELSE LayerKey(key, i - 1, n)
              outk  == LayerKey(key, i, n)
              ly    == Layer(key, base, s.rules[key][i], inner, outk, s.st + 1)
              s1    == [s EXCEPT !.reg = (outk :> ly) @@ @, !.st = @ + 1, !.cur = 0]
              s2    == AutoDeps(c, s1, ly.deps, base.sc, base.lt, c.dp)
          IN Layers(c, s2, key, i + 1, base)

Register(c, s, o) ==
  Out(Add(c, s, o.key,
          [ pid |-> o.pid, kind |-> o.kind, as |-> o.as, deps |-> o.deps,
            sc |-> o.sc, lt |-> o.lt, rv |-> o.rv, st |-> 0, nest |-> NestOf(o),
            inj |-> InjOf(o), auto |-> AutoOf(o) ],
          IF o.pol = "" THEN c.dp ELSE o.pol),
      {"ok"}, <<>>)

Decorate(c, s, o) ==
  LET rule == [pid |-> o.pid, as |-> o.as, deps |-> o.deps, inn |-> o.inn, nest |-> NestOf(o),
              inj |-> InjOf(o), auto |-> AutoOf(o)]
      old  == IF o.key \in DOMAIN s.rules THEN s.rules[o.key] ELSE <<>>
      s1   == [s EXCEPT !.rules = (o.key :> Append(old, rule)) @@ @]
  IN IF o.key \in s.chain
     THEN \* the former top layer moves to a private key, all layers are rebuilt
          Out(Layers(c, [s1 EXCEPT !.cur = 0], o.key, 1, s1.reg[Alias + o.key * 20]), {"ok"}, <<>>)
     ELSE IF o.key \in DOMAIN s.reg
     THEN LET s2 == [s1 EXCEPT !.reg = ((Alias + o.key * 20) :> s1.reg[o.key]) @@ @,
                               !.chain = @ \cup {o.key}, !.cur = 0]
          IN Out(Layers(c, s2, o.key, 1, s2.reg[Alias + o.key * 20]), {"ok"}, <<>>)
     ELSE Out(s1, {"ok"}, <<>>)

\* ---- templates ----
TLayer(base, rule, inner, ord) ==
  [ pid |-> rule.pid, kind |-> "f", as |-> rule.as,
    deps |-> [i \in 1..Len(rule.deps) |->
                [rule.deps[i] EXCEPT !.al = IF i = rule.inn THEN inner ELSE -1]],
    sc |-> base.sc, lt |-> base.lt, rv |-> "o", ord |-> ord,
    inj |-> InjOf(rule), auto |-> AutoOf(rule) ]
\* the dependencies of a template that are types in their own right
Fixed(deps) == LET q == SelectSeq(deps, LAMBDA d : d.al < 0 /\ d.tm[1] = "c")
               IN [i \in 1..Len(q) |-> [k |-> q[i].k, key |-> q[i].tm[2] * 10 + q[i].n, d |-> q[i].d]]
RECURSIVE TLayers(_, _, _, _, _)
TLayers(c, s, x, i, base) ==
  LET n == Len(s.trul[x])
  IN IF i > n THEN s
     ELSE LET ly == TLayer(base, s.trul[x][i], i - 1, base.ord)
              s1 == [s EXCEPT !.tpl = (TKey(x, IF i = n THEN 0 ELSE i + 1) :> ly) @@ @, !.cur = 0]
              s2 == AutoDeps(c, s1, Fixed(ly.deps), base.sc, base.lt, c.dp)
          IN TLayers(c, s2, x, i + 1, base)
TChain(c, s, x) ==
  LET s1 == IF x \in s.tchn THEN s
            ELSE [s EXCEPT !.tpl = (TKey(x, 1) :> s.tpl[TKey(x, 0)]) @@ @, !.tchn = @ \cup {x}]
  IN TLayers(c, s1, x, 1, s1.tpl[TKey(x, 1)])
Template(c, s, o) ==
  LET r == [ pid |-> o.pid, kind |-> o.kind, as |-> o.as, deps |-> o.deps,
             sc |-> o.sc, lt |-> o.lt, rv |-> o.rv, ord |-> s.st + 1,
             inj |-> InjOf(o), auto |-> AutoOf(o) ]
      s1 == [s EXCEPT !.tpl = (TKey(o.x, IF o.x \in s.tchn THEN 1 ELSE 0) :> r) @@ @,
                      !.st = @ + 1, !.cur = 0]
      s2 == AutoDeps(c, s1, Fixed(o.deps), o.sc, o.lt, IF o.pol = "" THEN c.dp ELSE o.pol)
  IN Out(IF o.x \in DOMAIN s2.trul THEN TChain(c, s2, o.x) ELSE s2, {"ok"}, <<>>)
DecorateTemplate(c, s, o) ==
  LET rule == [pid |-> o.pid, as |-> o.as, deps |-> o.deps, inn |-> o.inn,
               inj |-> InjOf(o), auto |-> AutoOf(o)]
      old  == IF o.x \in DOMAIN s.trul THEN s.trul[o.x] ELSE <<>>
      s1   == [s EXCEPT !.trul = (o.x :> Append(old, rule)) @@ @]
  IN IF o.x \in TemplatesOf(s.tpl)
     THEN Out(TChain(c, [s1 EXCEPT !.cur = 0], o.x), {"ok"}, <<>>)
     ELSE Out(s1, {"ok"}, <<>>)

\* a registration call that is refused as invalid
Refused(c, s, o) == Out(s, {o.err}, <<>>)

\* ---- compiling ----
\* scopes outside the root scope are never open: their registrations do not count
Inside(c, reg) == [k \in {x \in DOMAIN reg : reg[x].sc >= RootLevel(c.lad)} |-> reg[k]]
Compile(c, s) ==
  IF s.cur # 0 THEN s
  ELSE LET in   == Inside(c, s.reg)
           full == Full(c.gen, c.gen.tpls, s.tpl, in)
           why  == [k \in {x \in DOMAIN full : full[x].st = 0} |-> Faults(full, k, {})]
           gen  == [reg |-> full, as |-> AsyncKeys(full), deep |-> Deeper(in),
                    open |-> s.tpl # EmptyF,
                    bad |-> [k \in {x \in DOMAIN why : why[x] # <<>>} |-> why[k]]]
           root == [lvl |-> RootLevel(c.lad), par |-> 0, ctx |-> EmptyF, own |-> <<>>,
                    g |-> Len(s.gens) + 1, open |-> TRUE]
       IN [s EXCEPT !.gens = Append(@, gen), !.cur = Len(s.gens) + 1,
                    !.sc = Append(@, root), !.stk = Append(@, <<>>)]
RootOf(s) == CHOOSE i \in 1..Len(s.sc) : s.sc[i].par = 0 /\ s.sc[i].g = s.cur

\* scope designated by handle h; 0 is the container itself
Sid(s, h) == IF h = 0 THEN RootOf(s) ELSE s.hs[h]

\* ---- resolving ----
Ensure(c, s, key, pol) ==
  IF pol = "e" \/ key \in DOMAIN s.reg \/ ~Eligible(c, key) THEN s
  ELSE Add(c, s, key, RegisterClass(c, TypeOf(key), RootLevel(c.lad), c.dl),
           IF pol = "c" THEN "r" ELSE "i")

FOf(o) == [fc |-> ToSet(o.fc), fr |-> {}]

ResolveOp(c, s, o) ==
  IF o.at # 0
  THEN IF ~Usable(s, s.hs[o.at]) THEN Wild(s)
       ELSE AskAt(s, s.hs[o.at], o.tok, o.md, FOf(o))
  ELSE
   LET pol == IF o.pol = "" THEN c.mp ELSE o.pol
       ce  == IF s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
   IN IF ce # {} THEN Out(s, ce, <<>>)
      ELSE LET s1 == Compile(c, s)
               lazy == o.tok.k \in {"h", "g"}
               want == lazy \/ (o.tok.k = "p" /\ o.tok.key \notin DOMAIN s1.reg)
               s2 == IF want THEN Ensure(c, s1, o.tok.key, pol) ELSE s1
               ce2 == IF s2.cur = 0 THEN CompileErrors(Inside(c, s2.reg)) ELSE {}
           IN IF ~s1.sc[RootOf(s1)].open THEN Wild(s)
              ELSE IF ce2 # {} THEN Out(s2, ce2, <<>>)
              ELSE LET s3 == Compile(c, s2)
                       t == s3.gens[s3.cur].reg
                   IN IF lazy /\ pol # "e" /\ o.tok.key \in DOMAIN t /\ t[o.tok.key].kind = "e"
                      THEN Out(s3, {"E:Generic"}, <<>>)   \* looked at, to register it if need be
                      ELSE AskAt(s3, RootOf(s3), o.tok, o.md, FOf(o))

CallOp(c, s, o) ==
  LET h == s.hn[o.h]
  IN IF ~Usable(s, h.sid) THEN Wild(s)
     ELSE LET x == AskAt(s, h.sid, [k |-> "p", key |-> h.key], h.md, FOf(o))
          IN IF h.md = "s" THEN x ELSE [x EXCEPT !.r = {"~" \o a : a \in @}]  \* it was awaited

\* ---- scopes ----
CtxOf(q) == [k \in {q[i][1] : i \in 1..Len(q)} |->
               q[CHOOSE i \in 1..Len(q) : q[i][1] = k /\ \A j \in (i+1)..Len(q) : q[j][1] # k][2]]

RECURSIVE Open(_, _, _, _, _)
\* open the levels of `path` below scope i; owned: scopes opened on the way
Open(s, i, path, ctx, owned) ==
  LET last == Len(path) = 1
      new  == Len(s.sc) + 1
      s1   == [s EXCEPT
                 !.sc = Append(@, [lvl |-> path[1], par |-> i,
                                   ctx |-> IF last THEN ctx ELSE EmptyF,
                                   own |-> IF last THEN owned ELSE <<>>,
                                   g |-> s.sc[i].g, open |-> TRUE]),
                 !.stk = Append(@, <<>>)]
  IN IF last THEN [s1 EXCEPT !.hs = Append(@, new)]
     ELSE Open(s1, new, Tail(path), ctx, Append(owned, new))

\* enter a scope from scope i
EnterAt(c, s, i, o) ==
  LET p == EnterPlan(c.lad, Lvl(s, i), o.req)
  IN IF ~Usable(s, i) THEN Wild(s)
     ELSE CASE p.kind = "err"  -> Out(s, {"E:Scope"}, <<>>)
            [] p.kind = "self" -> Out([s EXCEPT !.hs = Append(@, i)], {"ok"}, <<>>)
            [] p.kind = "path" -> Out(Open(s, i, p.path, CtxOf(o.ctx), <<>>), {"ok"}, <<>>)

EnterOp(c, s, o) ==
  LET ce == IF o.at = 0 /\ s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
  IN IF ce # {} THEN Out(s, ce, <<>>)
     ELSE LET s1 == IF o.at = 0 THEN Compile(c, s) ELSE s
          IN EnterAt(c, s1, Sid(s1, o.at), o)

\* compiling on demand: the caller gets the root scope
CompileOp(c, s) ==
  LET ce == IF s.cur = 0 THEN CompileErrors(Inside(c, s.reg)) ELSE {}
  IN IF ce # {} THEN Out(s, ce, <<>>)
     ELSE LET s1 == Compile(c, s)
          IN Out([s1 EXCEPT !.hs = Append(@, RootOf(s1))], {"ok"}, <<>>)

RECURSIVE Unwind(_, _, _, _, _), CloseAll(_, _, _, _, _)
\* run the pending releases of scope i, newest first; er: first error so far
Unwind(s, i, md, F, x) ==
  IF s.stk[i] = <<>> THEN x @@ [s |-> s]
  ELSE LET top == s.stk[i][Len(s.stk[i])]
           s1  == [s EXCEPT !.stk[i] = SubSeq(@, 1, Len(@) - 1)]
           run == ~(top.as /\ md = "s")
           err == IF ~run THEN "E:Async"
                  ELSE IF top.pid \in F.fr THEN "E:rel" \o Str(top.pid) ELSE ""
           x1  == [er |-> IF x.er = "" THEN err ELSE x.er,
                   ev |-> IF run THEN Append(x.ev, "r o" \o Str(top.o) \o " " \o F.exc) ELSE x.ev]
           s2  == IF run THEN [s1 EXCEPT !.rel = Append(@, [o |-> top.o, sid |-> i])] ELSE s1
       IN Unwind(s2, i, md, F, x1)

\* close scope i, then the scopes opened on its way, deepest first
CloseAll(s, todo, md, F, x) ==
  IF todo = <<>> THEN x @@ [s |-> s]
  ELSE LET i == todo[1]
           y == Unwind(s, i, md, F, x)
           s1 == [y.s EXCEPT !.sc[i].open = FALSE,
                             !.cache = [q \in {d \in DOMAIN y.s.cache : d[1] # i \/ y.s.sc[i].par = 0}
                                          |-> y.s.cache[q]]]
       IN CloseAll(s1, Rev(s.sc[i].own) \o Tail(todo), md, F, [er |-> y.er, ev |-> y.ev])

\* all roots, newest first: the container owns what its former graphs hold
RECURSIVE Down(_)
Down(rs) == IF rs = {} THEN <<>>
            ELSE LET m == CHOOSE x \in rs : \A y \in rs : y <= x IN <<m>> \o Down(rs \ {m})
Roots(s) == Down({i \in 1..Len(s.sc) : s.sc[i].par = 0})

CloseOp(c, s, o) ==
  LET F == [fc |-> {}, fr |-> ToSet(o.fr), exc |-> IF o.exc = "" THEN "-" ELSE o.exc]
      todo == IF o.at = 0 THEN Roots(s) ELSE <<s.hs[o.at]>>
      y == CloseAll(s, todo, o.md, F, [er |-> "", ev |-> <<>>])
  IN IF o.at = 0 /\ s.gens = <<>> THEN Wild(s)
     ELSE Out(y.s, {IF o.exc = "" /\ y.er # "" THEN y.er ELSE "ok"}, y.ev)

Apply(c, s, o) ==
  CASE o.op = "reg" -> Register(c, s, o)
    [] o.op = "dec" -> Decorate(c, s, o)
    [] o.op = "tpl" -> Template(c, s, o)
    [] o.op = "tdec" -> DecorateTemplate(c, s, o)
    [] o.op = "bad" -> Refused(c, s, o)
    [] o.op = "res" -> ResolveOp(c, s, o)
    [] o.op = "call" -> CallOp(c, s, o)
    [] o.op = "ent" -> EnterOp(c, s, o)
    [] o.op = "cls" -> CloseOp(c, s, o)
    [] o.op = "cmp" -> CompileOp(c, s)

(* ------------------------------------------------------------------------ *)
(* Properties of the state (checked exhaustively by CoreMC and on every step *)
(* of every validated execution by CoreTrace)                                *)
(* ------------------------------------------------------------------------ *)
\* P01: at most one object per (owning scope, scoped key)
OneObjectPerScope(s) ==
  \A i, j \in 1..Len(s.made) :
     (i # j /\ s.made[i].lt = "S" /\ s.made[j].lt = "S")
        => <<s.made[i].at, s.made[i].key>> # <<s.made[j].at, s.made[j].key>>
\* P04: nothing is released twice; a closed scope holds nothing pending
ReleasedOnce(s) ==
  \A i, j \in 1..Len(s.rel) : i # j => s.rel[i].o # s.rel[j].o
ClosedIsEmpty(s) ==
  \A i \in 1..Len(s.sc) : ~s.sc[i].open => s.stk[i] = <<>>
\* P04: within a scope, releases reverse acquisitions, and everything acquired
\* is either pending or gone
ReverseOrder(s) ==
  \A i \in 1..Len(s.stk) : \A a, b \in 1..Len(s.stk[i]) :
      a < b => s.stk[i][a].o < s.stk[i][b].o
ReleasedAfterNewer(s) ==
  \A i \in 1..Len(s.rel) : \A b \in 1..Len(s.stk[s.rel[i].sid]) :
      s.stk[s.rel[i].sid][b].o < s.rel[i].o
         \/ s.sc[s.rel[i].sid].par = 0 \/ s.sc[s.rel[i].sid].open
\* P02: closed scopes keep no objects (roots excepted)
NothingCachedInClosed(s) ==
  \A d \in DOMAIN s.cache : s.sc[d[1]].open \/ s.sc[d[1]].par = 0
\* P03: a cached object was built where it lives and only from objects of
\* that scope or enclosing ones
BuiltWhereItLives(s) ==
  \A i \in 1..Len(s.made) : s.made[i].lt = "S" => s.made[i].at = s.made[i].own
ObjName(v, n) == v = "o" \o Str(n)
NoCapture(s) ==
  \A i \in 1..Len(s.made) : \A a \in 1..Len(s.made[i].args) :
     \A j \in 1..Len(s.made) :
        (ObjName(s.made[i].args[a], s.made[j].o) /\ s.made[j].lt = "S")
           => s.made[j].own \in Chain(s, s.made[i].at)
Safe(s) ==
  /\ OneObjectPerScope(s)
  /\ ReleasedOnce(s)
  /\ ClosedIsEmpty(s)
  /\ ReverseOrder(s)
  /\ NothingCachedInClosed(s)
  /\ BuiltWhereItLives(s)
  /\ NoCapture(s)
=============================================================================
