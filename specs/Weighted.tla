-------------------------------- MODULE Weighted --------------------------------
(***************************************************************************)
(* Configurations [word, storage, weight] and their order; weights in      *)
(* reverse order; a weight split into equal factors.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
\* rev: the weights are reversed ones
CmpW(rev, a, b) == IF rev THEN Cmp(b, a) ELSE Cmp(a, b)
RECURSIVE Lex(_, _)
Lex(u, v) == CASE u = <<>> /\ v = <<>> -> 0
               [] u = <<>> /\ v # <<>> -> -1
               [] u # <<>> /\ v = <<>> -> 1
               [] OTHER -> IF Head(u) # Head(v) THEN Cmp(Head(u), Head(v)) ELSE Lex(Tail(u), Tail(v))
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN 0 ELSE IF Head(s) # 0 THEN Head(s) ELSE FirstOf(Tail(s))
\* by weight, then the one with less left to read is greater, then by what is left and by storage
CmpConf(rev, x, y) == FirstOf(<<CmpW(rev, x.weight, y.weight), Cmp(Len(y.word), Len(x.word)), Lex(x.word, y.word), Cmp(x.storage, y.storage)>>)
SameConf(x, y) == x.word = y.word /\ x.storage = y.storage

\* a queue of configurations (a bag, as a sequence): what is taken is a greatest one
Greatest(rev, q) == {k \in 1..Len(q) : \A m \in 1..Len(q) : CmpConf(rev, q[k], q[m]) >= 0}
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
RECURSIVE Sorted(_, _)
Sorted(rev, q) == IF q = <<>> THEN <<>> ELSE LET k == CHOOSE k \in Greatest(rev, q) : TRUE IN Append(Sorted(rev, Without(q, k)), q[k])

--------------------------------------------------------------------------
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN Sgn(a) * Sgn(b) * q
Rest(a, b) == a - b * Quot(a, b)
\* arithmetic of a reversed weight is that of its content
Arith(op, a, b) == CASE op = "add" -> a + b [] op = "sub" -> a - b [] op = "mul" -> a * b [] op = "div" -> Quot(a, b) [] op = "rem" -> Rest(a, b)
\* logarithms of the factors of a weight: n of them, all equal, that add up to that of the weight
Factors(fs, e, n, eps) == /\ Len(fs) = n
                          /\ \A k, m \in 1..n : Abs(fs[k] - fs[m]) <= eps
                          /\ n > 0 => Abs(SumSeq(fs) - e) <= eps * (n + 1)
=============================================================================
