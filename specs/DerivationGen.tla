---------------------------- MODULE DerivationGen ----------------------------
(* Every tree of the model with at most GEN_N nodes, from both roots. *)
EXTENDS DerivationMC, SequencesExt, Json, IOUtils
N == atoi(IOEnv.GEN_N)
Put(t, x) == [y \in DOMAIN t.tree \cup {Head(t.open)[1]} |-> IF y = Head(t.open)[1] THEN x ELSE t.tree[y]]
Grown(t) == {[tree |-> Put(t, r), open |-> Tail(t.open) \o [k \in 1..Len(r.tail) |-> <<Child(Head(t.open)[1], k - 1), r.tail[k]>>]] :
                r \in {x \in Used : x.head = Head(t.open)[2] /\ Cardinality(DOMAIN t.tree) + Len(t.open) + Len(x.tail) <= N}}
RECURSIVE Trees(_, _)
Trees(frontier, done) == IF frontier = {} THEN done
                         ELSE LET fin == {t \in frontier : t.open = <<>>}
                              IN Trees(UNION {Grown(t) : t \in frontier \ fin}, done \cup {t.tree : t \in fin})
All(x_) == Trees({[tree |-> << >>, open |-> <<<<<<>>, h>>>>] : h \in {S, A}}, {})
Listed(t) == LET s == SetToSeq(DOMAIN t) IN [k \in 1..Len(s) |-> <<s[k], t[s[k]]>>]
Tok(n) == [k \in 1..n |-> <<119, 48 + k>>]
Kind == IOEnv.GEN_KIND
Cases_(x_) == CASE Kind = "eval" -> {[kind |-> "eval", tree |-> Listed(t)] : t \in All(0)}
                [] Kind = "sep" -> {[kind |-> "sep", tree |-> Listed(t)] : t \in {x \in All(0) : Defined(x, <<>>) /\ Consistent(x)}}
                [] Kind = "negra" -> UNION {{[kind |-> "negra", tree |-> Listed(t), sep |-> sp, given |-> g, sid |-> 1 + Cardinality(DOMAIN t),
                                        tokens |-> Tok(Len(Yield(t)))] : sp \in {TRUE, Normal(t)}, g \in BOOLEAN} : t \in {x \in All(0) : Defined(x, <<>>) /\ Consistent(x)}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
