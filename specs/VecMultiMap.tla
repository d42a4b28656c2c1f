----------------------------- MODULE VecMultiMap -----------------------------
(***************************************************************************)
(* A map from indices to lists over a vector of vectors that grows on      *)
(* demand: index i of the map is position i + 1 of `vec`.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES vec, out
\* the map it stands for is total: untouched indices have the empty list
At(v, i) == IF i + 1 <= Len(v) THEN v[i + 1] ELSE <<>>
Padded(v, n) == [k \in 1..(IF n > Len(v) THEN n ELSE Len(v)) |-> At(v, k - 1)]
VInit(v) == vec = v /\ out = <<"new">>
PushTo(i, x) == vec' = [Padded(vec, i + 1) EXCEPT ![i + 1] = Append(@, x)] /\ out' = <<"pushed">>
Get(i) == vec' = Padded(vec, i + 1) /\ out' = <<"list", At(vec, i)>>
GetOrFail(i) == UNCHANGED vec /\ out' = IF i < Len(vec) THEN <<"list", vec[i + 1]>> ELSE <<"fail">>
\* replaces the list at i (through a mutable reference)
Replace(i, s) == vec' = [Padded(vec, i + 1) EXCEPT ![i + 1] = s] /\ out' = <<"list", At(vec, i)>>
RECURSIVE Trim(_)
Trim(v) == IF v # <<>> /\ v[Len(v)] = <<>> THEN Trim(SubSeq(v, 1, Len(v) - 1)) ELSE v
Sized(v, n) == [k \in 1..n |-> At(v, k - 1)]
=============================================================================
