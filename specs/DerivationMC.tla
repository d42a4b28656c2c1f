----------------------------- MODULE DerivationMC -----------------------------
(* Trees that are grown rule by rule, evaluated step by step, separated, and exported by a writer. *)
EXTENDS Derivation
CONSTANTS MaxNodes, Faulty
a_ == <<97>>  b_ == <<98>>  S == <<83>>  A == <<65>>
T(x) == <<"T", x>>
V(i, j) == <<"V", i, j>>
R(h, c, t, w) == [head |-> h, comp |-> c, tail |-> t, w |-> w]
\* S and a have one component, A has two; a is also a terminal
Rules == {R(S, <<<<V(0, 0), V(0, 1)>>>>, <<A>>, 1), R(S, <<<<V(0, 1), T(b_), V(0, 0), T(b_)>>>>, <<A>>, 2), R(S, <<<<T(a_), V(1, 0), V(0, 0)>>>>, <<a_, a_>>, 3),
          R(S, <<<<V(0, 0)>>>>, <<a_>>, 4), R(S, <<<<V(0, 0), V(0, 0), T(b_)>>>>, <<a_>>, 5),
          R(A, <<<<T(a_), V(0, 0)>>, <<V(0, 1), T(b_)>>>>, <<A>>, 6), R(A, <<<<V(0, 1)>>, <<>>>>, <<A>>, 7), R(A, <<<<T(a_)>>, <<T(b_), T(a_)>>>>, <<>>, 8), R(A, <<<<>>, <<T(b_)>>>>, <<>>, 9),
          R(A, <<<<V(1, 0)>>, <<V(0, 0)>>>>, <<a_, S>>, 10),
          R(a_, <<<<T(a_)>>>>, <<>>, 11), R(a_, <<<<>>>>, <<>>, 12), R(a_, <<<<T(b_), V(0, 0)>>>>, <<a_>>, 13)}
BadRules == {R(S, <<<<V(0, 0), V(0, 2)>>>>, <<A>>, 14), R(S, <<<<V(1, 0)>>>>, <<a_>>, 15), R(S, <<<<V(0, 1)>>>>, <<A>>, 16), R(A, <<<<V(1, 0)>>, <<V(0, 0)>>>>, <<a_>>, 17)}
Used == Rules \cup (IF Faulty THEN BadRules ELSE {})

VARIABLES phase, tree, open, work, out, queue, nums, lines
vars == <<phase, tree, open, work, out, queue, nums, lines>>
Init == phase = "grow" /\ tree = << >> /\ open \in {<<<<<<>>, S>>>>, <<<<<<>>, A>>>>} /\ work = <<>> /\ out = <<>> /\ queue = <<>> /\ nums = << >> /\ lines = <<>>
Grow == /\ phase = "grow" /\ open # <<>>
        /\ \E r \in Used :
             /\ r.head = Head(open)[2]
             /\ Cardinality(DOMAIN tree) + Len(open) + Len(r.tail) <= MaxNodes
             /\ tree' = [x \in DOMAIN tree \cup {Head(open)[1]} |-> IF x = Head(open)[1] THEN r ELSE tree[x]]
             /\ open' = Tail(open) \o [k \in 1..Len(r.tail) |-> <<Child(Head(open)[1], k - 1), r.tail[k]>>]
        /\ UNCHANGED <<phase, work, out, queue, nums, lines>>
\* evaluation: components are expanded from the left, one item at a time
Item(a, x) == IF x[1] = "T" THEN <<"T", x[2]>> ELSE <<"C", Child(a, x[2]), x[3] + 1>>
Start == /\ phase = "grow" /\ open = <<>>
         /\ phase' = "eval"
         /\ work' = [m \in 1..Len(tree[<<>>].comp) |-> [k \in 1..Len(tree[<<>>].comp[m]) |-> Item(<<>>, tree[<<>>].comp[m][k])]]
         /\ out' = <<<<>>>> /\ UNCHANGED <<tree, open, queue, nums, lines>>
Cur == work[1]
Next1 == Cur[1]
Shift == /\ phase = "eval" /\ work # <<>> /\ Cur # <<>> /\ Next1[1] = "T"
         /\ out' = [out EXCEPT ![Len(out)] = Append(@, Next1[2])] /\ work' = [work EXCEPT ![1] = Tail(@)]
         /\ UNCHANGED <<phase, tree, open, queue, nums, lines>>
CanExpand == IF Next1[2] \notin DOMAIN tree THEN FALSE ELSE Next1[3] <= Len(tree[Next1[2]].comp)
Expand == /\ phase = "eval" /\ work # <<>> /\ Cur # <<>> /\ Next1[1] = "C" /\ CanExpand
          /\ LET c == tree[Next1[2]].comp[Next1[3]]
             IN work' = [work EXCEPT ![1] = [k \in 1..Len(c) |-> Item(Next1[2], c[k])] \o Tail(@)]
          /\ UNCHANGED <<phase, tree, open, out, queue, nums, lines>>
Stuck == /\ phase = "eval" /\ work # <<>> /\ Cur # <<>> /\ Next1[1] = "C" /\ ~CanExpand
         /\ phase' = "refused" /\ UNCHANGED <<tree, open, work, out, queue, nums, lines>>
NextComp == /\ phase = "eval" /\ work # <<>> /\ Cur = <<>>
            /\ work' = Tail(work) /\ out' = IF Len(work) > 1 THEN Append(out, <<>>) ELSE out
            /\ phase' = IF Len(work) > 1 THEN "eval" ELSE "done"
            /\ UNCHANGED <<tree, open, queue, nums, lines>>
\* export of the separated tree: words first, constituents in the order in which they were met
Sep == Separate(tree)
RECURSIVE Meet(_, _, _)
\* numbers for an address and, when its line is written, for its parent
Meet(q, ns, a) == IF a \in DOMAIN ns THEN <<q, ns>>
                  ELSE <<Append(q, a), [x \in DOMAIN ns \cup {a} |-> IF x = a THEN (IF a = <<>> THEN 0 ELSE 500 + Cardinality(DOMAIN ns \ {<<>>})) ELSE ns[x]]>>
Write == /\ phase = "done" /\ Exportable(Sep)
         /\ phase' = "words" /\ UNCHANGED <<tree, open, work, out, queue, nums, lines>>
Word == /\ phase = "words"
        /\ LET y == Yield(Sep) k == Len(lines) + 1
           IN IF k > Len(y) THEN phase' = "inner" /\ UNCHANGED <<queue, nums, lines>>
              ELSE LET m == Meet(queue, nums, Parent(y[k][2]))
                   IN /\ queue' = m[1] /\ nums' = m[2]
                      /\ lines' = Append(lines, [form |-> <<"w", y[k][1]>>, tag |-> Sep[y[k][2]].head, par |-> m[2][Parent(y[k][2])]])
                      /\ UNCHANGED phase
        /\ UNCHANGED <<tree, open, work, out>>
InnerLine == /\ phase = "inner" /\ queue # <<>>
             /\ LET a == Head(queue)
                IN IF a = <<>> THEN queue' = Tail(queue) /\ UNCHANGED <<nums, lines>>
                   ELSE LET m == Meet(Tail(queue), nums, Parent(a))
                        IN /\ queue' = m[1] /\ nums' = m[2]
                           /\ lines' = Append(lines, [form |-> <<"#", nums[a]>>, tag |-> Sep[a].head, par |-> m[2][Parent(a)]])
             /\ UNCHANGED <<phase, tree, open, work, out>>
Next == Grow \/ Start \/ Shift \/ Expand \/ Stuck \/ NextComp \/ Write \/ Word \/ InnerLine
Spec == Init /\ [][Next]_vars

Evaluated == phase \notin {"grow", "eval", "refused"}
\* the steps compute the value; they get stuck exactly if a needed component is missing
ValueInv == Evaluated => ~MustRefuse(tree, <<>>) /\ out = Val(tree, <<>>)
RefuseInv == phase = "refused" => MustRefuse(tree, <<>>) /\ ~Defined(tree, <<>>)
DefInv == (phase = "eval" /\ Defined(tree, <<>>)) => ~MustRefuse(tree, <<>>)
SepInv == (phase = "done" /\ Defined(tree, <<>>) /\ Consistent(tree)) =>
             /\ IsSeparation(tree, Sep) /\ Normal(Sep) /\ Consistent(Sep) /\ Defined(Sep, <<>>) /\ Val(Sep, <<>>) = Val(tree, <<>>)
             /\ Heads(Sep) \ Heads(tree) = {Sep[x].head : x \in DOMAIN Sep \ DOMAIN tree}
NegraInv == (phase = "inner" /\ queue = <<>>) =>
             LET y == Words(Yield(Sep)) IN
             /\ IsNegra(Sep, y, lines)
             \* the relation is discriminating: no other parent for any line will do
             /\ \A k \in 1..Len(lines) : \A p \in {0} \cup 499..(500 + Len(lines)) : p # lines[k].par => ~IsNegra(Sep, y, [lines EXCEPT ![k].par = p])
=============================================================================
