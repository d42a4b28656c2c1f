----------------------------- MODULE EquivalenceMC -----------------------------
(* Lists of classes, declared one by one and written as a text; a map that is filled class by class. *)
EXTENDS Equivalence
CONSTANTS MaxClasses
\* labels and elements: a, b, and one that needs quotes
Lab == {<<97>>, <<98>>, <<42, 32>>}
El == {<<97>>, <<44, 99>>, <<100>>}
Mem == {<<>>, <<<<97>>>>, <<<<97>>, <<44, 99>>>>, <<<<100>>, <<44, 99>>, <<100>>>>}
Q(w) == IF w \in {<<97>>, <<98>>, <<100>>} THEN w ELSE <<QUOTE>> \o w \o <<QUOTE>>
RECURSIVE Join(_, _)
Join(xs, s) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o s \o Join(Tail(xs), s)
Lays == {[b |-> <<SP>>, sep |-> <<COMMA>>, lead |-> <<>>, nl |-> <<LF>>], [b |-> <<SP, TAB>>, sep |-> <<SP, COMMA, SP>>, lead |-> <<SP>>, nl |-> <<SP, CR, LF, TAB, LF>>]}
ClassText(c, y) == y.lead \o Q(c.label) \o y.b \o (IF c.dflt THEN <<42>> ELSE <<LBR>> \o Join([k \in 1..Len(c.members) |-> Q(c.members[k])], y.sep) \o <<RBR>>)
Classes == {Cls(x, FALSE, m) : x \in Lab, m \in Mem} \cup {Cls(x, TRUE, <<>>) : x \in Lab}

VARIABLES cs, text, todo, map, default, status
vars == <<cs, text, todo, map, default, status>>
Init == cs = <<>> /\ text = <<>> /\ todo = <<>> /\ map = << >> /\ default = <<>> /\ status = "write"
Declare == /\ status = "write" /\ Len(cs) < MaxClasses
           /\ \E x \in Classes, y \in Lays : cs' = Append(cs, x) /\ text' = text \o ClassText(x, y) \o y.nl
           /\ UNCHANGED <<todo, map, default, status>>
Start == status = "write" /\ status' = "read" /\ todo' = cs /\ UNCHANGED <<cs, text, map, default>>
\* the relation is built as a map from elements to labels
Seen(x) == \E k \in 1..(Len(cs) - Len(todo)) : cs[k].label = x
Add == /\ status = "read" /\ todo # <<>>
       /\ LET x == Head(todo)
          IN IF Seen(x.label) \/ (x.dflt /\ default # <<>>) \/ Elems(x.members) \cap DOMAIN map # {}
             THEN status' = "refused" /\ UNCHANGED <<map, default>>
             ELSE /\ status' = status
                  /\ default' = IF x.dflt THEN <<x.label>> ELSE default
                  /\ map' = [e \in DOMAIN map \cup Elems(x.members) |-> IF e \in DOMAIN map THEN map[e] ELSE x.label]
       /\ todo' = Tail(todo) /\ UNCHANGED <<cs, text>>
Close == status = "read" /\ todo = <<>> /\ status' = (IF default = <<>> THEN "refused" ELSE "done") /\ UNCHANGED <<cs, text, todo, map, default>>
Next == Declare \/ Start \/ Add \/ Close
Spec == Init /\ [][Next]_vars

ReadsBack == status = "write" => LET r == ReadText(text, "str") IN r.v = cs /\ r.s = (IF Valid(cs) THEN "ok" ELSE "fail")
Agrees == /\ status = "done" => Valid(cs) /\ \A e \in El : Project(cs, e) = (IF e \in DOMAIN map THEN map[e] ELSE default[1])
          /\ status = "refused" => ~Valid(cs)
\* every class is the inverse image of its label
Inverse == status = "done" => \A k \in 1..Len(cs) : ~cs[k].dflt => {e \in El : Project(cs, e) = cs[k].label} = Elems(cs[k].members)
\* the order of declarations does not matter
Reversed == [k \in 1..Len(cs) |-> cs[Len(cs) + 1 - k]]
OrderFree == status = "done" => Valid(Reversed) /\ SameRelation(cs, Reversed)
=============================================================================
