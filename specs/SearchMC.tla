------------------------------ MODULE SearchMC ------------------------------
EXTENDS Search, TLC
CONSTANTS Nodes, MaxYields
VARIABLES start, hist, done
W == [n \in Nodes |-> (n * 2) % 3]                 \* priorities of the nodes (with ties)
Item(n) == <<n, W[n]>>
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y
                                   IN <<Item(m)>> \o Asc(s \ {m})
Graphs == [Nodes -> {Asc(s) : s \in SUBSET Nodes}]
Kinds == {[d |-> d, cap |-> 0, beta |-> 0, mul |-> "add"] : d \in {"lifo", "fifo", "heap"}}
Starts == {<<Item(0)>>, <<Item(0), Item(1)>>, <<Item(1), Item(1)>>}
MCInit == /\ hist = <<>> /\ done = FALSE
          /\ \E k \in Kinds, g \in Graphs, u \in BOOLEAN, st \in Starts : SInit(k, st, g, u) /\ start = st
MCNext == /\ ~done /\ Len(hist) < MaxYields /\ start' = start
          /\ \/ \E i \in Idx(Pending) : Yield(Pending[i]) /\ hist' = Append(hist, out'[2]) /\ done' = FALSE
             \/ End /\ hist' = hist /\ done' = TRUE
MCSpec == MCInit /\ [][MCNext]_<<svars, start, hist, done>>

StartNodes == {start[i][1] : i \in Idx(start)}
Yielded == {hist[i][1] : i \in Idx(hist)}
OnlyReachable == Yielded \subseteq Closure(StartNodes)
Once == uniq => Cardinality(Yielded) = Len(hist)
Complete == done => Yielded = Closure(StartNodes)
\* a unique search always ends within as many steps as there are nodes
Ends == uniq => Len(hist) <= Cardinality(Nodes)
\* distance from the start in edges
RECURSIVE DistFrom(_, _, _)
DistFrom(layer, n, d) == IF n \in layer \/ d > Cardinality(Nodes) THEN d
                         ELSE DistFrom(layer \cup UNION {{succ[m][i][1] : i \in Idx(succ[m])} : m \in layer}, n, d + 1)
Dist(n) == DistFrom(StartNodes, n, 0)
\* breadth first: never a farther node before a nearer one
Layers == kind.d = "fifo" /\ uniq => \A i, j \in Idx(hist) : i < j => Dist(hist[i][1]) <= Dist(hist[j][1])
\* weighted: nothing pending is better than what is yielded
BestFirst == kind.d = "heap" /\ out[1] = "yield" =>
                \A i \in Idx(Pending) : Prio(Pending[i]) <= Prio(out[2])
                    \/ \E j \in Idx(succ[out[2][1]]) : succ[out[2][1]][j] = Pending[i]
=============================================================================
