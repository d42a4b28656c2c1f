----------------------------- MODULE EquivalenceGen -----------------------------
(* Lists of at most GEN_N classes, as texts, maps and lists; changes of one character in some texts. *)
EXTENDS EquivalenceMC, SequencesExt, Json, IOUtils
N == atoi(IOEnv.GEN_N)
Lists(n) == UNION {[1..k -> Classes] : k \in 0..n}
SomeLists == {ks \in Lists(N) : \A k \in 1..Len(ks) : ks[k].label # <<42, 32>> \/ ks[k].dflt}
Y1 == CHOOSE y \in Lays : y.lead = <<>>
TextOf(ks, y) == Join([k \in 1..Len(ks) |-> ClassText(ks[k], y)], y.nl)
Queries == SetToSeq(El \cup {<<122>>})
T(t) == [kind |-> "text", ty |-> "str", text |-> t, queries |-> Queries]
\* relations to compare with: the opposite order, each class dropped, each class emptied, and the next label as default
Flip(ks) == [k \in 1..Len(ks) |-> ks[Len(ks) + 1 - k]]
Others(ks) == <<Flip(ks)>> \o [k \in 1..Len(ks) |-> SubSeq(ks, 1, k - 1) \o SubSeq(ks, k + 1, Len(ks))]
   \o [k \in 1..Len(ks) |-> [ks EXCEPT ![k].members = <<>>]] \o <<[k \in 1..Len(ks) |-> IF ks[k].dflt THEN Cls(<<100>>, TRUE, <<>>) ELSE ks[k]]>>
NoDup(ks) == \A k, m \in 1..Len(ks) : k # m => ks[k].label # ks[m].label
Sig == {SP, TAB, LF, QUOTE, BSL, COMMA, LBR, RBR, 42, 97, 98, DASH, PCT}
Damaged(t) == {SubSeq(t, 1, p) : p \in 0..Len(t)}
   \cup {SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t)) : p \in 1..Len(t)}
   \cup {SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t)) : p \in 0..Len(t), x \in Sig}
   \cup {[t EXCEPT ![p] = x] : p \in 1..Len(t), x \in Sig}
Base == {TextOf(<<Cls(<<97>>, FALSE, <<<<97>>, <<44, 99>>>>), Cls(<<98>>, FALSE, <<<<100>>>>), Cls(<<42, 32>>, TRUE, <<>>)>>, y) : y \in Lays}
Cases_(x_) == {T(TextOf(ks, y)) : ks \in SomeLists, y \in Lays}
   \cup {T(d) : d \in UNION {Damaged(t) : t \in Base}}
   \cup {[kind |-> "map", ty |-> "str", others |-> Others(Append(SelectSeq(ks, LAMBDA x : ~x.dflt), Cls(d, TRUE, <<>>))), classes |-> SelectSeq(ks, LAMBDA x : ~x.dflt), default |-> d, queries |-> Queries] : ks \in {z \in SomeLists : NoDup(SelectSeq(z, LAMBDA x : ~x.dflt))}, d \in Lab}
   \cup {[kind |-> "list", ty |-> "str", others |-> Others(ks), classes |-> ks, queries |-> Queries] : ks \in SomeLists}
   \cup {[kind |-> "class", text |-> ClassText(x, y), cand |-> z] : x \in Classes, y \in Lays, z \in Classes}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
