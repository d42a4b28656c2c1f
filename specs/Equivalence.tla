------------------------------ MODULE Equivalence ------------------------------
(***************************************************************************)
(* Equivalence relations: classes [label, dflt, members] where the default *)
(* class (dflt) takes everything that no class lists. They are read line   *)
(* by line from texts: a label, then [members], or a star for the default. *)
(***************************************************************************)
EXTENDS GrammarTokens

Elems(s) == {s[k] : k \in 1..Len(s)}
Cls(l, d, m) == [label |-> l, dflt |-> d, members |-> m]
Listed(cs) == UNION {Elems(cs[k].members) : k \in 1..Len(cs)}
\* accepted exactly if nothing is declared twice and one class is the default
Valid(cs) == /\ Cardinality({k \in 1..Len(cs) : cs[k].dflt}) = 1
             /\ \A k, m \in 1..Len(cs) : k # m => cs[k].label # cs[m].label /\ Elems(cs[k].members) \cap Elems(cs[m].members) = {}
Default(cs) == cs[CHOOSE k \in 1..Len(cs) : cs[k].dflt].label
Project(cs, x) == IF x \in Listed(cs) THEN cs[CHOOSE k \in 1..Len(cs) : x \in Elems(cs[k].members)].label ELSE Default(cs)
\* as a finite map and a default
SameRelation(cs, ds) == /\ Default(cs) = Default(ds) /\ Listed(cs) = Listed(ds)
                        /\ \A x \in Listed(cs) : Project(cs, x) = Project(ds, x)

--------------------------------------------------------------------------
\* symbols of a type: strings, or numbers
AsNumber(w) == IF \A k \in 1..Len(w) : w[k] \in Digit THEN (IF Len(w) <= 9 THEN Ok(Num(w, 0), 0, FALSE) ELSE Free)
               ELSE IF \E k \in 1..Len(w) : w[k] \in Digit THEN Free ELSE Fail
Symbol(ty, r) == IF r.s # "ok" \/ ty = "str" THEN r
                 ELSE LET x == AsNumber(r.v) IN IF x.s # "ok" THEN x ELSE [r EXCEPT !.v = x.v]
RECURSIVE Symbols(_, _, _)
Symbols(ty, ws, acc) == IF ws = <<>> THEN Ok(acc, 0, FALSE)
                        ELSE LET x == Symbol(ty, Ok(Head(ws), 0, FALSE)) IN IF x.s # "ok" THEN x ELSE Symbols(ty, Tail(ws), Append(acc, x.v))
\* a class from position 1; i is the position after it
ReadClass(t, ty) ==
   LET h == Symbol(ty, Token(t, 1))
   IN IF h.s # "ok" THEN h
      ELSE LET j == SkipB(t, h.i)
           IN IF At(t, j) = 42 THEN Ok(Cls(h.v, TRUE, <<>>), j + 1, h.fr)
              ELSE LET v == Vec(t, j, "tok", LBR, RBR)
                   IN IF v.s # "ok" THEN v
                      ELSE LET m == Symbols(ty, v.v, <<>>)
                           IN IF m.s # "ok" THEN m ELSE Ok(Cls(h.v, FALSE, m.v), v.i, h.fr \/ v.fr)
\* a whole line: what follows the class is left open
ReadLine(t, ty) == LET r == IF t[1] \in FarWhite \/ t[Len(t)] \in FarWhite THEN Free ELSE ReadClass(t, ty)
                   IN IF r.s # "ok" THEN r ELSE IF r.i <= Len(t) \/ r.fr THEN Free ELSE r
Verdict(status, cs) == IF status = "ok" THEN (IF Valid(cs) THEN "ok" ELSE "fail") ELSE status
Worse(a, b) == IF a = "fail" \/ b = "fail" THEN "fail" ELSE IF a = "free" \/ b = "free" THEN "free" ELSE "ok"
RECURSIVE ReadAll(_, _, _, _)
ReadAll(ls, ty, cs, st) ==
   IF ls = <<>> THEN [s |-> Verdict(st, cs), v |-> cs]
   ELSE LET t == Trim(Head(ls))
        IN IF t = <<>> THEN ReadAll(Tail(ls), ty, cs, st)
           ELSE LET r == ReadLine(t, ty) IN ReadAll(Tail(ls), ty, IF r.s = "ok" THEN Append(cs, r.v) ELSE cs, Worse(st, r.s))
ReadText(t, ty) == ReadAll(Lines(t), ty, <<>>, "ok")
=============================================================================
