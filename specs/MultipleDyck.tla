------------------------------ MODULE MultipleDyck ------------------------------
(***************************************************************************)
(* Multiple Dyck languages.  Brackets are pairs <<"o", x>> and <<"c", x>>; *)
(* cells is a sequence of disjoint sets of symbols.  A word belongs to the *)
(* language if it is balanced and the bracket pairs fall into groups, each *)
(* with exactly one pair for every symbol of one cell, such that the pairs *)
(* of a group stand directly inside pairs of one and the same group (or    *)
(* outside all brackets).                                                  *)
(*                                                                         *)
(* In a sorted language every symbol has a sort; the symbols of a group    *)
(* have the same sort, and groups directly inside the same group have      *)
(* different sorts.                                                        *)
(*                                                                         *)
(* The recogniser is a tree-stack automaton: nodes of a tree remember the  *)
(* pair that is open (0: none) and the symbols that are still missing.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- the language
\* the pairs of a balanced word, as a sequence of [sym, inside]; <<FALSE>> if the word is not balanced
RECURSIVE Parse(_, _)
\* st: the open levels, innermost last; a level is [sym, items]
Parse(w, st) ==
  IF w = <<>> THEN IF Len(st) = 1 THEN <<TRUE, st[1].items>> ELSE <<FALSE>>
  ELSE LET x == Head(w) n == Len(st) IN
    IF x[1] = "o" THEN Parse(Tail(w), Append(st, [sym |-> x[2], items |-> <<>>]))
    ELSE IF n > 1 /\ st[n].sym = x[2]
         THEN Parse(Tail(w), Append(SubSeq(st, 1, n - 2), [st[n - 1] EXCEPT !.items = Append(@, [sym |-> x[2], inside |-> st[n].items])]))
         ELSE <<FALSE>>
Forest(w) == Parse(w, <<[sym |-> -1, items |-> <<>>]>>)
CellsWith(cells, x) == {cells[k] : k \in {m \in 1..Len(cells) : x \in cells[m]}}

RECURSIVE Pick(_, _), Insides(_, _)
Pick(items, K) == \* the items at the positions that are not in K, in order
  IF items = <<>> THEN <<>> ELSE
  LET n == Len(items) IN Pick(SubSeq(items, 1, n - 1), K) \o (IF n \in K THEN <<>> ELSE <<items[n]>>)
Insides(items, K) ==
  IF items = <<>> THEN <<>> ELSE
  LET n == Len(items) IN Insides(SubSeq(items, 1, n - 1), K) \o (IF n \in K THEN items[n].inside ELSE <<>>)
\* the sets of positions that form a group with position 1
GroupsOf(items, cell) == LET Pos(x) == {k \in 1..Len(items) : items[k].sym = x}
                         IN {f \in SUBSET (UNION {Pos(x) : x \in cell}) :
                              1 \in f /\ \A x \in cell : Cardinality(f \cap Pos(x)) = 1}
\* sort: a function from symbols to sorts, or <<>> (not sorted); used: the sorts of the groups beside
RECURSIVE Groupable(_, _, _, _)
Groupable(items, cells, sort, used) ==
  \/ items = <<>>
  \/ \E cell \in CellsWith(cells, items[1].sym) :
       /\ (sort # <<>> => (\A x \in cell : sort[x] = sort[items[1].sym]) /\ sort[items[1].sym] \notin used)
       /\ \E K \in GroupsOf(items, cell) :
            /\ Groupable(Insides(items, K), cells, sort, {})
            /\ Groupable(Pick(items, K), cells, sort, IF sort = <<>> THEN {} ELSE used \cup {sort[items[1].sym]})
Member(w, cells, sort) == LET f == Forest(w) IN f[1] /\ Groupable(f[2], cells, sort, {})

\* ---- the automaton
\* tree: a function from addresses (sequences of child numbers) to [open, missing]; at: the address of the pointer
VARIABLES tree, at
Root == [open |-> 0, missing |-> {}]
AInit == tree = (<<>> :> Root) /\ at = <<>>
Kids(a) == {b \in DOMAIN tree : Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a}
UpNew(x, cell, k) == LET b == Append(at, k) IN
  b \notin DOMAIN tree /\ tree' = (b :> [open |-> x, missing |-> cell \ {x}]) @@ tree /\ at' = b
UpOld(x, b) == tree[b].open = 0 /\ x \in tree[b].missing /\ tree' = [tree EXCEPT ![b] = [open |-> x, missing |-> @.missing \ {x}]] /\ at' = b
Open(x, cells, sort) ==
  \E cell \in CellsWith(cells, x) :
    IF sort = <<>>
    THEN \/ UpNew(x, cell, Cardinality(Kids(at)))
         \/ \E b \in Kids(at) : UpOld(x, b)
    ELSE LET b == Append(at, sort[x]) IN IF b \in DOMAIN tree THEN UpOld(x, b) ELSE UpNew(x, cell, sort[x])
Close(x) == /\ at # <<>> /\ tree[at].open = x
            /\ tree' = [tree EXCEPT ![at].open = 0] /\ at' = SubSeq(at, 1, Len(at) - 1)
Accepting == at = <<>> /\ \A a \in DOMAIN tree : tree[a] = Root
=============================================================================
