------------------------------- MODULE Wiring -------------------------------
(* How a provider's signature turns into the arguments it is called with.

   A parameter is [n |-> name number, k |-> kind, d |-> has a default,
   a |-> annotation, key |-> its key].
     kinds        po positional-only, pk positional-or-keyword, va *args,
                  ko keyword-only, vk **kwargs
     annotations  -  none                       u  cannot be evaluated
                  p  key                        m  Maybe[key]
                  x  FromContext[key]           y  Maybe[FromContext[key]]
                  h  Provider[key]              g  AsyncProvider[key]
                  v  Maybe[Provider[key]]       a  All[key]
                  f  key of a dataclass field with a default factory
                  t  the type argument of a closed generic class
   Explicit dependencies are [n, k, a, key]: a declared parameter name and kind
   with the key it stands for.
   In a provider that is a callable wrapped by inject, parameters with
   i |-> TRUE are filled by the wrapper, from the scope the provider runs in;
   the signature the registration sees does not have them.

   A container holds registered providers; keys 1..6 are plain, key 7 names a
   sequence (what *args expands), key 8 a mapping (what **kwargs expands).
   Apply(c, s, o) -> [s, r, ev] as in DiwireCore.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Str(n) == ToString(n)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1]
           ELSE q[1] \o "," \o Join(Tail(q))
Names(q) == {q[i].n : i \in 1..Len(q)}
Find(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]

Star(k) == k \in {"va", "vk"}
Required(p) == ~p.d /\ ~Star(p.k)
Hidden(p) == "i" \in DOMAIN p /\ p.i
Hiddens(sig) == SelectSeq(sig, Hidden)
Visible(sig) == SelectSeq(sig, LAMBDA p : ~Hidden(p))
\* a hidden parameter takes the place of one that can only be passed by position
Displaced(sig) ==
  \E i \in 1..Len(sig) : \E j \in i + 1..Len(sig) :
     Hidden(sig[i]) /\ sig[i].k \in {"po", "pk"} /\ ~Hidden(sig[j]) /\ sig[j].k \in {"po", "va"}

(* ---- what Python accepts as a signature ---- *)
Order(k) == CASE k = "po" -> 1 [] k = "pk" -> 2 [] k = "va" -> 3 [] k = "ko" -> 4 [] k = "vk" -> 5
Follows(p, q) ==   \* q may directly follow p
  /\ Order(q.k) >= Order(p.k)
  /\ Star(q.k) => q.k # p.k
  /\ (q.k \in {"po", "pk"} /\ p.d) => q.d
Valid(sig) == \A i \in 1..Len(sig) - 1 : Follows(sig[i], sig[i + 1])

(* ---- dependencies of a registration ---- *)
Inferable(p) == p.a \notin {"-", "u"}
Inferred(sig) == SelectSeq(sig, Inferable)
\* the parameter with the explicit key, which wins over its annotation
Given(sig, expl) ==
  LET deps == [i \in 1..Len(sig) |->
                 IF sig[i].n \in Names(expl)
                 THEN [sig[i] EXCEPT !.a = Find(expl, sig[i].n).a, !.key = Find(expl, sig[i].n).key]
                 ELSE [sig[i] EXCEPT !.a = "-"]]
  IN SelectSeq(deps, LAMBDA p : p.a # "-")

\* verdict on a registration
CheckOf(sig, o) ==
  IF o.isx
  THEN LET bad == \E i \in 1..Len(o.expl) :
                    \/ o.expl[i].n \notin Names(sig)
                    \/ Find(sig, o.expl[i].n).k # o.expl[i].k
                    \/ \E j \in 1..i - 1 : o.expl[j].n = o.expl[i].n
           missing == \E i \in 1..Len(sig) : Required(sig[i]) /\ sig[i].n \notin Names(o.expl)
       IN IF bad THEN "E:InvalidSpec" ELSE IF missing THEN "E:Inference" ELSE "ok"
  ELSE IF \E i \in 1..Len(sig) : Required(sig[i]) /\ ~Inferable(sig[i])
       THEN "E:Inference" ELSE "ok"

Check(o) == CheckOf(Visible(o.sig), o)

Deps(o) == IF o.isx THEN Given(Visible(o.sig), o.expl) ELSE Inferred(Visible(o.sig))

(* ---- what compiling the graph refuses ---- *)
Unsupported(p, K) ==
  \/ Star(p.k) /\ (p.a \in {"h", "g"} \/ (p.a = "v" /\ p.key \in K))
  \/ p.a = "a" /\ p.k = "vk"
Unregistered(p, K) == p.a \in {"p", "h", "g"} /\ p.key \notin K
Refusals(deps, K) ==
  (IF \E i \in 1..Len(deps) : Unsupported(deps[i], K) THEN {"E:InvalidSpec"} ELSE {})
  \cup (IF \E i \in 1..Len(deps) : Unregistered(deps[i], K) THEN {"E:NotRegistered"} ELSE {})

(* ---- the argument each parameter receives ---- *)
Obj(src, p) ==    \* the value of key p.key from src, expanded for a star parameter
  CASE p.k = "va" -> "(" \o src \o Str(p.key) \o "1," \o src \o Str(p.key) \o "2)"
    [] p.k = "vk" -> "{z1:" \o src \o Str(p.key) \o "1,z2:" \o src \o Str(p.key) \o "2}"
    [] OTHER -> src \o Str(p.key)
Absent(p) == IF p.d THEN "d" \o Str(p.n)
             ELSE CASE p.k = "va" -> "()" [] p.k = "vk" -> "{}" [] OTHER -> "n"
\* "!" where resolving fails
Argument(p, deps, K, X) ==
  IF p.n \notin Names(deps) THEN Absent(p)
  ELSE LET d == Find(deps, p.n) IN
    CASE d.a = "p" -> IF d.key \in K THEN Obj("k", d) ELSE "!"
      [] d.a \in {"m", "f"} -> IF d.key \in K THEN Obj("k", d) ELSE Absent(d)
      [] d.a = "x" -> IF d.key \in X THEN Obj("c", d) ELSE "!"
      [] d.a = "y" -> IF d.key \in X THEN Obj("c", d) ELSE Absent(d)
      [] d.a \in {"h", "g"} -> "<k" \o Str(d.key) \o ">"
      [] d.a = "v" -> IF d.key \in K THEN "<k" \o Str(d.key) \o ">" ELSE Absent(d)
      [] d.a = "a" -> IF d.key \in K THEN "(k" \o Str(d.key) \o ")" ELSE "()"
      [] d.a = "t" -> "t"

Call(sig, deps, K, X) ==
  [i \in 1..Len(sig) |-> Str(sig[i].n) \o "=" \o Argument(sig[i], deps, K, X)]
Fails(sig, deps, K, X) ==
  \E i \in 1..Len(sig) : Argument(sig[i], deps, K, X) = "!"

(* Known finding F20: a positional-only dependency following an absent optional
   positional-only one is not decided here. *)
F20(deps, K) ==
  \E i \in 1..Len(deps) : \E j \in 1..Len(deps) :
     /\ i < j /\ deps[i].k = "po" /\ deps[j].k = "po"
     /\ deps[i].a \in {"m", "v"} /\ deps[i].d /\ deps[i].key \notin K

(* ------------------------------------------------------------------------ *)
\* a state: the providers registered so far, pid -> [sig, deps, root, dec];
\* dec is the key a decorator decorates (0: none)
InitState == [regs |-> [x \in {} |-> 0], wild |-> FALSE]

AllRefusals(s, K) == UNION {Refusals(s.regs[p].deps, K) : p \in DOMAIN s.regs}

Register(K, s, o) ==
  LET r == Check(o)
      d == Deps(o)
      s1 == [s EXCEPT !.regs = [p \in DOMAIN s.regs \cup {o.pid} |->
               IF p = o.pid THEN [sig |-> o.sig, deps |-> d, root |-> o.root, dec |-> o.dec] ELSE s.regs[p]]]
  IN IF ~Valid(o.sig) \/ Displaced(o.sig) THEN [s |-> [s EXCEPT !.wild = TRUE], r |-> "", ev |-> <<>>]
     ELSE IF r # "ok" THEN [s |-> s, r |-> IF o.dec > 0 THEN "E:InvalidReg" ELSE r, ev |-> <<>>]
     ELSE [s |-> [s1 EXCEPT !.wild = F20(d, K)], r |-> "ok", ev |-> <<>>]

Resolve(K, s, o) ==
  LET p == s.regs[o.pid]
      X == IF p.root THEN {} ELSE {o.ctx[i] : i \in 1..Len(o.ctx)}
      bad == AllRefusals(s, K)
  IN IF o.pid \notin DOMAIN s.regs
     THEN [s |-> s, r |-> IF bad = {} THEN "E:NotRegistered" ELSE "?", ev |-> <<>>]
     ELSE IF bad # {}
     THEN [s |-> [s EXCEPT !.wild = Cardinality(bad) > 1], r |-> CHOOSE e \in bad : TRUE, ev |-> <<>>]
     ELSE IF Fails(p.sig, p.deps \o Hiddens(p.sig), K, X) THEN [s |-> s, r |-> "E:NotRegistered", ev |-> <<>>]
     ELSE [s |-> s, r |-> "ok", ev |-> <<Join(Call(p.sig, p.deps \o Hiddens(p.sig), K, X))>>]

\* keys registered by decorating them
Decorated(s) == {s.regs[p].dec : p \in DOMAIN s.regs} \ {0}
Apply(K, s, o) ==
  IF o.op = "reg" THEN Register(K \cup {o.dec}, s, o) ELSE Resolve(K \cup Decorated(s), s, o)
=============================================================================
