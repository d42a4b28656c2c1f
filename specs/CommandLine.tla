------------------------------ MODULE CommandLine ------------------------------
(***************************************************************************)
(* What the command line prints for sentences.  A line of output is a      *)
(* sequence of fields (strings).  Sentences are [id, word, toks]: the      *)
(* number of the block, the letters that are parsed, and the words to be   *)
(* printed for them where the letters are tags.                            *)
(*                                                                         *)
(* `csparsing parse`: for every line of input at most k blocks, the best   *)
(* derivations; if there is none, the fallback (if asked for and there is  *)
(* one) or a block without a parse.  `mcfg parse`: the blocks of the best  *)
(* derivations, followed by an empty line.                                 *)
(***************************************************************************)
EXTENDS CsParsing
N == INSTANCE Derivation
\* numbers as strings
NumOf(x, n) == IF x = "0" THEN 0 ELSE IF \E k \in 500..(500 + n) : ToString(k) = x THEN CHOOSE k \in 500..(500 + n) : ToString(k) = x ELSE -1
FormOf(x, n) == IF \E k \in 500..(500 + n) : "#" \o ToString(k) = x THEN CHOOSE k \in 500..(500 + n) : "#" \o ToString(k) = x ELSE -1
Bos(id) == <<"#BOS " \o ToString(id)>>
Eos(id) == <<"#EOS " \o ToString(id)>>
WellFormed(b) == \A k \in 1..Len(b) : Len(b[k]) = 5 /\ b[k][3] = "--" /\ b[k][4] = "--" /\ NumOf(b[k][5], Len(b)) >= 0
\* the lines of a block between its first and last: nw word lines come first
Lines_(b, nw) == [k \in 1..Len(b) |-> [form |-> IF k <= nw THEN <<"w", b[k][1]>> ELSE <<"#", FormOf(b[k][1], Len(b))>>, tag |-> b[k][2], par |-> NumOf(b[k][5], Len(b))]]
AsFun(t) == [a \in {x[1] : x \in t} |-> Node(t, a)]
\* block b shows the tree t over the words ws
Shows(t, ws, b) == WellFormed(b) /\ N!IsNegra(AsFun(t), ws, Lines_(b, Len(ws)))
\* the block for a sentence without a parse
NoParse(ws, tags) == [k \in 1..Len(ws) |-> <<ws[k], tags[k], "--", "--", "500">>] \o <<<<"#500", "NOPARSE", "--", "--", "0">>>>

\* cutting the output into blocks: the first block of out, if it is one of sentence id
RECURSIVE EosAt(_, _, _)
EosAt(out, id, k) == IF k > Len(out) THEN 0 ELSE IF out[k] = Eos(id) THEN k ELSE EosAt(out, id, k + 1)
StartsBlock(out, id) == out # <<>> /\ out[1] = Bos(id) /\ EosAt(out, id, 2) > 0
From(out, k) == SubSeq(out, k, Len(out))
RECURSIVE Blocks(_, _)
\* all blocks of id at the beginning, and what comes after them
Blocks(out, id) == IF ~StartsBlock(out, id) THEN [blocks |-> <<>>, rest |-> out]
                   ELSE LET e == EosAt(out, id, 2) r == Blocks(From(out, e + 1), id)
                        IN [blocks |-> <<SubSeq(out, 2, e - 1)>> \o r.blocks, rest |-> r.rest]

\* sequences of trees, the k-th out of T[k]
RECURSIVE Choices(_)
Choices(T) == IF T = <<>> THEN {<<>>} ELSE {<<t>> \o q : t \in Head(T), q \in Choices(Tail(T))}
\* blocks are the (first k) derivations out of the candidates D, of which cand are looked at
Trees(g, D, ws, blocks) == [n \in 1..Len(blocks) |-> {t \in {Tree(g, d) : d \in Good(g, D)} : Shows(t, ws, blocks[n])}]
AreBest(g, D, k, cand, ws, blocks) ==
  /\ Len(blocks) <= k
  /\ \E out \in Choices(Trees(g, D, ws, blocks)) :
       IF Len(blocks) < k THEN IsEnumeration(g, D, cand, out)
       ELSE out # <<>> => (IsFirst(g, D, out) /\ (cand = -1 \/ Cardinality(Below(D, TreeExp(out[Len(out)]))) < cand))
\* blocks are derivations, each once, in order
AreSome(g, D, k, cand, ws, blocks) ==
  /\ Len(blocks) <= k
  /\ \E out \in Choices(Trees(g, D, ws, blocks)) : IsPruned(g, D, cand, out)
\* no derivation comes out at all
NoneBest(g, D, k, cand) == k = 0 \/ IsEnumeration(g, D, cand, <<>>)
\* the block of the fallback
Falls(g, D, ws, b) == \E d \in D : Shows(Fallback(g, d), ws, b)
=============================================================================
