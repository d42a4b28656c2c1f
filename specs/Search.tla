------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Exploration of a graph with one of the agendas of module Agenda.  The   *)
(* state of a search is its agenda (kind, box) plus, for a unique search,  *)
(* the set of nodes it has yielded.                                        *)
(***************************************************************************)
EXTENDS Agenda, TLC
VARIABLES succ,   \* node |-> sequence of its successors (items <<node, priority>>)
          uniq,   \* TRUE for a unique search
          seen    \* the nodes yielded so far
svars == <<kind, box, out, succ, uniq, seen>>

Unseen(s) == SelectSeq(s, LAMBDA x : x[1] \notin seen)
\* what the search still has to look at
Pending == IF uniq THEN Unseen(box) ELSE box

\* In a weighted agenda the order of arrival is irrelevant; sorting avoids telling equal agendas apart.
Canon(s) == IF kind.d \in {"lifo", "fifo"} THEN s
            ELSE SortSeq(s, LAMBDA x, y : x[1] < y[1])
First(s, x) == CHOOSE i \in Idx(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x

SInit(k, items, sc, u) == Init(k, items) /\ succ = sc /\ uniq = u /\ seen = {}

\* one call of next() that yields x
Yield(x) == /\ \E i \in Next_(Pending) : Pending[i] = x
            /\ LET i == IF kind.d = "lifo" THEN Len(Pending) ELSE First(Pending, x)
               IN box' \in {Canon(s) : s \in PushedAll(Without(Pending, i), succ[x[1]])}
            /\ seen' = seen \cup {x[1]}
            /\ out' = <<"yield", x>>
            /\ UNCHANGED <<kind, succ, uniq>>
\* one call of next() that ends the search
End == Pending = <<>> /\ box' = <<>> /\ out' = <<"end">> /\ UNCHANGED <<kind, succ, uniq, seen>>

RECURSIVE Closure(_)
Closure(ns) == LET m == ns \cup UNION {{succ[n][i][1] : i \in Idx(succ[n])} : n \in ns}
               IN IF m = ns THEN ns ELSE Closure(m)
=============================================================================
