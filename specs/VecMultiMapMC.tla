---------------------------- MODULE VecMultiMapMC ----------------------------
EXTENDS VecMultiMap
CONSTANTS MaxIdx, MaxOps
VARIABLES n, ghost   \* ghost: the map as a total function
MCInit == n = 0 /\ VInit(<<>>) /\ ghost = [i \in 0..MaxIdx |-> <<>>]
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \E i \in 0..MaxIdx :
               \/ \E x \in 1..2 : PushTo(i, x) /\ ghost' = [ghost EXCEPT ![i] = Append(@, x)]
               \/ Get(i) /\ ghost' = ghost
               \/ GetOrFail(i) /\ ghost' = ghost
               \/ Replace(i, <<9>>) /\ ghost' = [ghost EXCEPT ![i] = <<9>>]
               \/ Replace(i, <<>>) /\ ghost' = [ghost EXCEPT ![i] = <<>>]
MCSpec == MCInit /\ [][MCNext]_<<vec, out, n, ghost>>
SameMap == \A i \in 0..MaxIdx : At(vec, i) = ghost[i]
\* a conversion into a vector is the shortest vector that stands for the same map
Shortest == /\ \A i \in 0..MaxIdx : At(Trim(vec), i) = ghost[i]
            /\ Trim(vec) # <<>> => Trim(vec)[Len(Trim(vec))] # <<>>
SizedOk == \A m \in 0..(MaxIdx + 2) : /\ Len(Sized(vec, m)) = m
                                      /\ \A i \in 0..(m - 1) : Sized(vec, m)[i + 1] = At(vec, i)
OneList == [][\E i \in 0..MaxIdx : \A j \in 0..MaxIdx \ {i} : ghost'[j] = ghost[j]]_<<vec, out, n, ghost>>
NeverShrinks == [][Len(vec') >= Len(vec)]_<<vec, out, n, ghost>>
=============================================================================
