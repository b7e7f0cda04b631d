---------------------------- MODULE InferenceGen -----------------------------
(* Enumerates every registration of Inference over one class of each sort and
   prints the verdict and what each key gives afterwards; harness/inference.py
   replays each of them.  The invariants say what must be true of any way to
   read a key off an annotation.                                             *)
EXTENDS Inference, Json

K(i) == [t |-> "k", i |-> i]
W(t, a) == [t |-> t, a |-> a]
M(c, a) == [t |-> "m", c |-> c, a |-> a]
Sf == [t |-> "self"]
Nn == [t |-> "none"]
Silent == {No, [t |-> "bad"]}
Leaves == {K(1), M(1, K(1)), M(0, K(1)), Nn, Sf, M(1, Sf), W("un", K(1)), W("li", K(1))}
Few == {K(1), M(1, K(1)), Sf}
Entries == Silent \cup Leaves
Classes == {[t |-> "ec", x |-> x, a |-> a] : x \in {"s", "a", "b"}, a \in Entries}
           \cup {[t |-> "ec", x |-> "a", a |-> W(t, a)] : t \in {"aw", "co"}, a \in Few}
Anns(how) ==
  CASE how = "f" -> Silent \cup Leaves \cup {W(t, a) : t \in {"aw", "co"}, a \in Leaves}
                    \cup {M(c, W(t, K(1))) : c \in {0, 1}, t \in {"aw", "co"}}
    [] how = "g" -> Silent \cup {W(t, a) : t \in {"ge", "ag", "it", "ai"}, a \in Leaves}
                    \cup {M(0, W(t, K(1))) : t \in {"ge", "ag"}}
    [] how = "m" -> Silent \cup {W(t, a) : t \in {"ge", "ag", "it", "ai", "cm", "am"}, a \in Leaves}
                    \cup {M(0, W(t, K(1))) : t \in {"cm", "am"}}
                    \cup Classes \cup {M(0, e) : e \in {c \in Classes : c.a = K(1) \/ c.a = Sf}}
    [] OTHER -> {No}
Forms == {"def", "lam", "method", "static", "classm", "obj", "wraps", "cls"}
Decls(how) ==
  CASE how = "f" -> {"s", "a"} [] how = "g" -> {"s", "g", "ag"} [] how = "m" -> {"s", "cm", "acm"}
    [] OTHER -> {"s"}

VARIABLES o, step
vars == <<o, step>>

Blank == [op |-> "reg", pid |-> 1, how |-> "c", form |-> "cls", part |-> FALSE, decl |-> "s", ann |-> No,
          comp |-> 0, exp |-> No]
Init ==
  /\ step = 0
  /\ \E how \in {"f", "g", "m", "c", "i"} : \E form \in Forms, part \in BOOLEAN, decl \in Decls(how) :
       o = [Blank EXCEPT !.how = how, !.form = form, !.part = part, !.decl = decl]

Choose ==
  /\ step = 0
  /\ \E ann \in Anns(o.how), comp \in {0, 1}, exp \in {No, K(2), M(1, K(2))} :
       /\ (exp.t = "m" => comp = 1 /\ o.form = "def" /\ ~o.part)
       /\ (comp = 1 => o.form \in {"def", "cls"})
       /\ o' = [o EXCEPT !.ann = ann, !.comp = comp, !.exp = exp]
  /\ Honest(o')
  /\ step' = 1

Plain == {K(1), K(2), Nn, Own(o), Sf, W("un", K(1)), W("li", K(1))} \cup {W(t, K(1)) : t \in {"aw", "co", "ge", "ag", "cm", "am"}}
Keys == Plain \cup {M(1, a) : a \in Plain}
After == Reg(InitState, o)
Serves == [x \in Keys \X BOOLEAN |-> Res(After.s, [key |-> x[1], as |-> x[2]]).r]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Served == {x \in Keys \X BOOLEAN : Serves[x] # "E:NotRegistered"}

Tell ==
  /\ step = 1
  /\ step' = 2
  /\ UNCHANGED o
  /\ PrintT(<<"CASE", ToJson([o |-> o, r |-> After.r,
        got |-> Listed({[key |-> x[1], as |-> x[2], r |-> Serves[x]] : x \in Served})])>>)

Next == Choose \/ Tell

\* one key at most is served, it is never a wrapper the provider takes off, and
\* a refused registration serves nothing
OneKey == step = 1 => Cardinality({Name(x[1]) : x \in Served}) = (IF After.r = "ok" THEN 1 ELSE 0)
NoWrapper ==
  (step = 1 /\ After.r = "ok" /\ o.exp.t = "no") =>
    \A x \in Served : ~(Outer(x[1]).t \in {"ge", "ag", "cm", "am"} \/ (Outer(x[1]).t \in {"aw", "co"} /\ o.decl # "a"))
NoSelf == step = 1 => \A x \in Served : Outer(x[1]).t # "self"
\* a key given explicitly changes nothing but the key
SameAsExplicit ==
  (step = 1 /\ After.r = "ok" /\ o.exp.t = "no") =>
    Reg(InitState, [o EXCEPT !.exp = Inferred(o)]) = After
=============================================================================
