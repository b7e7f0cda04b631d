------------------------------ MODULE Inference ------------------------------
(* Registrations whose key is not given: it is what the provider's annotation
   says it produces, and the provider is asynchronous exactly when obtaining
   that takes awaiting.

   Annotations are terms [t |-> ..., ...]:
     no                 none                     bad      names nothing
     k  (i)             class i                  none     None
     self               Self                     h  (p)   the class made for registration p
     m  (c, a)          Annotated[a, ...], with component c (0: other metadata)
     aw co (a)          Awaitable[a], Coroutine[Any, Any, a]
     ge ag (a)          Generator[a, None, None], AsyncGenerator[a, None]
     it ai (a)          Iterator[a], AsyncIterator[a]
     cm am (a)          AbstractContextManager[a], AbstractAsyncContextManager[a]
     ec (x, a)          a context manager class of this registration: x its
                        protocol (s, a, b both), a the annotation of its entry
     un (a), li (a)     a | None, list[a]

   A registration is
     how    f factory, g generator, m context manager, c class, i instance
     form   def, lam, method, static, classm, obj (a callable object), wraps
            (functools.wraps around a def), cls (a class is the provider)
     part   wrapped in functools.partial
     decl   s an ordinary function, a async def, g / ag a (async) generator
            function, cm / acm one under @(async)contextmanager
     ann    its return annotation (of a class: of its entry)
     comp   component argument (0: none)
     exp    the key given explicitly ([t |-> "no"]: none)
     lit    the method is called without provides= ("infer" otherwise)

   Apply(s, o) -> [s, r, ev] as in DiwireCore; the state maps the name of a key
   to the provider serving it.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Str(n) == ToString(n)
Wraps == {"aw", "co", "ge", "ag", "it", "ai", "cm", "am", "un", "li", "m", "ec"}

\* the name of the key a term stands for
RECURSIVE Base(_), Name(_), Comp(_)
Comp(a) == IF a.t # "m" THEN 0 ELSE IF a.c # 0 THEN a.c ELSE Comp(a.a)
Base(a) ==
  CASE a.t = "m" -> Base(a.a)
    [] a.t = "k" -> "k" \o Str(a.i)
    [] a.t = "h" -> "h" \o Str(a.p)
    [] a.t \in {"none", "self"} -> a.t
    [] a.t \in {"no", "bad", "ec"} -> "?"
    [] OTHER -> a.t \o "(" \o Name(a.a) \o ")"
Name(a) == IF Comp(a) = 0 THEN Base(a) ELSE Base(a) \o "@" \o Str(Comp(a))

RECURSIVE Outer(_), Has(_, _)
Outer(a) == IF a.t = "m" THEN Outer(a.a) ELSE a
Has(a, ts) == a.t \in ts \/ (a.t \in Wraps /\ Has(a.a, ts))

No == [t |-> "no"]
Own(o) == [t |-> "h", p |-> o.pid]

\* what remains once an awaitable has been awaited
RECURSIVE Awaited(_)
Awaited(a) ==
  IF a.t \in {"aw", "co"} THEN a.a
  ELSE IF a.t = "m" /\ Outer(a).t \in {"aw", "co"} THEN [t |-> "m", c |-> a.c, a |-> Awaited(a.a)]
  ELSE a

\* Self is the class of the object the provider is bound to
Owned(o) == o.form \in {"method", "classm", "obj", "cls"}
RECURSIVE Bound(_, _)
Bound(o, a) ==
  IF a.t = "self" THEN (IF Owned(o) THEN Own(o) ELSE No)
  ELSE IF a.t = "m" /\ Outer(a).t = "self"
  THEN (IF Owned(o) THEN [t |-> "m", c |-> a.c, a |-> Bound(o, a.a)] ELSE No)
  ELSE a

\* the key of the object a context manager class gives on entry
Entered(o, e) ==
  LET a == IF e.x = "a" THEN Awaited(e.a) ELSE e.a
  IN IF Outer(a).t = "self" THEN (IF a.t = "self" THEN Own(o) ELSE [t |-> "m", c |-> a.c, a |-> Own(o)])
     ELSE a

\* the inferred key, No when there is none
Inferred(o) ==
  IF o.how \in {"c", "i"} THEN Own(o)
  ELSE IF o.how = "f" THEN
    (IF o.form = "cls" THEN Own(o)
     ELSE Bound(o, IF o.decl = "a" THEN o.ann ELSE Awaited(o.ann)))
  ELSE IF o.how = "g" THEN
    (IF o.ann.t \in {"ge", "ag"} THEN Bound(o, o.ann.a) ELSE No)
  ELSE IF o.form = "cls" THEN Entered(o, o.ann)
  ELSE IF o.ann.t \in {"ge", "ag", "cm", "am"} THEN Bound(o, o.ann.a)
  ELSE IF Outer(o.ann).t = "ec" THEN Entered(o, Outer(o.ann))
  ELSE No

Async(o) ==
  CASE o.how = "f" -> o.form # "cls" /\ (o.decl = "a" \/ Outer(o.ann).t \in {"aw", "co"})
    [] o.how = "g" -> o.decl = "ag" \/ Outer(o.ann).t = "ag"
    [] o.how = "m" -> o.decl = "acm" \/ Outer(o.ann).t \in {"am", "ag"}
                      \/ (Outer(o.ann).t = "ec" /\ Outer(o.ann).x = "a")
    [] OTHER -> FALSE

(* Registrations in which the annotation says what the provider does; only
   these are claimed.                                                        *)
\* what yields, enters or awaits names an ordinary key
RECURSIVE Leaf(_)
Leaf(a) == a.t \in {"k", "none", "self"} \/ (a.t \in {"un", "li"} /\ a.a.t = "k")
           \/ (a.t = "m" /\ a.a.t # "m" /\ Leaf(a.a))
Honest(o) ==
  LET a == o.ann
      out == Outer(a)
      silent == a.t \in {"no", "bad"}
      entry == out.t = "ec" /\ (out.a.t \in {"no", "bad"} \/ Leaf(out.a)
                                \/ (out.x = "a" /\ out.a.t \in {"aw", "co"} /\ Leaf(out.a.a)))
  IN /\ o.form = "lam" => (a.t = "no" /\ o.decl = "s")
     /\ ~(a.t = "m" /\ a.a.t = "m")
     /\ CASE o.how \in {"c", "i"} -> o.form = "cls" /\ o.decl = "s" /\ a.t = "no" /\ ~o.part
          [] o.how = "f" ->
               IF o.form = "cls" THEN a.t \in {"no", "none"} /\ o.decl = "s"
               ELSE o.decl \in {"s", "a"} /\
                    (silent \/ Leaf(a)
                     \/ (out.t \in {"aw", "co"} /\ Leaf(out.a) /\ (o.decl = "a" => a.t # "m" /\ out.a.t = "k")))
          [] o.how = "g" ->
               /\ o.form # "cls"
               /\ o.decl \in {"g", "ag", "s"}
               /\ CASE o.decl = "g" -> silent \/ (out.t \in {"ge", "it"} /\ Leaf(out.a))
                    [] o.decl = "ag" -> silent \/ (out.t \in {"ag", "ai"} /\ Leaf(out.a))
                    [] OTHER -> silent \/ (out.t \in {"ge", "ag", "it"} /\ Leaf(out.a))
          [] o.how = "m" ->
               IF o.form = "cls" THEN o.decl = "s" /\ a.t = "ec" /\ entry
               ELSE /\ o.decl \in {"cm", "acm", "s"}
                    /\ CASE o.decl = "cm" -> silent \/ (out.t \in {"ge", "it"} /\ Leaf(out.a))
                         [] o.decl = "acm" -> silent \/ (out.t \in {"ag", "ai"} /\ Leaf(out.a))
                         [] OTHER -> silent \/ (out.t \in {"cm", "am"} /\ Leaf(out.a)) \/ entry
     \* without an annotation nothing says that an ordinary function gives
     \* something asynchronous: it does not

(* ------------------------------------------------------------------------ *)
InitState == [m |-> [x \in {} |-> 0], d |-> [x \in {} |-> 0]]

Put(f, n, p) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN p ELSE f[x]]

Reg(s, o) ==
  LET given == o.exp.t # "no"
      key == IF given THEN o.exp ELSE Inferred(o)
      n == IF Name(key) = "?" THEN "?"
           ELSE IF o.comp = 0 THEN Name(key) ELSE Name(key) \o "@" \o Str(o.comp)
  IN IF n = "?" \/ (o.comp # 0 /\ Comp(key) # 0)
     THEN [s |-> s, r |-> "E:InvalidReg", ev |-> <<>>]
     ELSE [s |-> [s EXCEPT !.m = Put(s.m, n, [v |-> "p" \o Str(o.pid), as |-> Async(o)])], r |-> "ok", ev |-> <<>>]

\* a decorator of a registered key: its layer awaits when it does, and it stays
\* when the key is registered again
Layers(s, n) == IF n \in DOMAIN s.d THEN s.d[n] ELSE <<>>
Dec(s, o) ==
  LET n == Name(o.key)
      layer == [pid |-> o.pid, as |-> o.decl = "a" \/ Outer(o.ann).t \in {"aw", "co"}]
  IN [s |-> [s EXCEPT !.d = Put(s.d, n, Append(Layers(s, n), layer))], r |-> "ok", ev |-> <<>>]

RECURSIVE Wrapped(_, _)
Wrapped(v, q) == IF q = <<>> THEN v ELSE Wrapped("d" \o Str(q[1].pid) \o "(" \o v \o ")", Tail(q))
Res(s, o) ==
  LET n == Name(o.key)
      q == Layers(s, n)
  IN [s |-> s, ev |-> <<>>,
      r |-> IF n \notin DOMAIN s.m THEN "E:NotRegistered"
            ELSE IF (s.m[n].as \/ \E i \in 1..Len(q) : q[i].as) /\ ~o.as THEN "E:Async"
            ELSE Wrapped(s.m[n].v, q)]

Apply(s, o) ==
  CASE o.op = "reg" -> Reg(s, o)
    [] o.op = "dec" -> Dec(s, o)
    [] o.op = "res" -> Res(s, o)
=============================================================================
