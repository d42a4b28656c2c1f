------------------------------ MODULE SearchGen ------------------------------
(* All graphs over three nodes, all agendas, plain and unique. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Nodes == 0..2
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
Graphs == {<<Asc(f[0]), Asc(f[1]), Asc(f[2])>> : f \in [Nodes -> SUBSET Nodes]}
Cases == {[kind |-> d, uniq |-> u, w |-> <<1, 0, 1>>, succ |-> g, start |-> st, cap |-> 0, max |-> 7]
          : d \in {"lifo", "fifo", "heap"}, u \in BOOLEAN, g \in Graphs, st \in {<<0>>, <<0, 1>>, <<1, 1, 0>>}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
