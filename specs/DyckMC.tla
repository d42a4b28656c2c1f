------------------------------- MODULE DyckMC -------------------------------
EXTENDS Dyck
CONSTANTS Symbols, MaxLen
VARIABLES word
MCInit == DInit /\ word = <<>>
MCNext == Len(word) < MaxLen /\ \E d \in {"o", "c"}, s \in Symbols : Read(<<d, s>>) /\ word' = Append(word, <<d, s>>)
MCSpec == MCInit /\ [][MCNext]_<<stack, dead, word>>
AcceptsBalanced == (Accepting <=> Reduces(word)) /\ (Accepting <=> Run(<<>>, word))
NoWayBack == [][dead => dead']_<<stack, dead, word>>
Prefixes == dead => ~Reduces(word)
=============================================================================
