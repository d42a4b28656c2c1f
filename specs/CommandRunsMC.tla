---------------------------- MODULE CommandRunsMC ----------------------------
(***************************************************************************)
(* The loop of a command: for every line of the input a best-first search  *)
(* of its own, of which n results are printed, then an empty line.         *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NRules, NWord, NRuns
VARIABLES g,       \* the grammar
          lines,   \* the lines of the input
          n,       \* how many results are asked for
          agenda,  \* the items of the search for the first line
          here,    \* what is printed for it so far
          out      \* what is printed for the lines before
vars == <<g, lines, n, agenda, here, out>>
Aut == OfCfg(g)
RECURSIVE Ends(_, _, _)
Ends(w, F, d) == F = {} \/ (d > 0 /\ Ends(w, UNION {Steps(Aut, w, x) : x \in F}, d - 1))
Init == /\ g \in Cfgs(NRules)
        /\ lines \in [1..2 -> WordsUpTo({1, 2}, NWord)]
        /\ \A k \in 1..2 : Ends(lines[k], {Start(OfCfg(g))}, 12)
        /\ n \in 0..NRuns
        /\ agenda = {Start(OfCfg(g))} /\ here = <<>> /\ out = <<>>
AtWork == lines # <<>> /\ agenda # {} /\ Len(here) < n
Search == /\ AtWork
          /\ \E x \in agenda : /\ \A y \in agenda : Scaled(y.w) <= Scaled(x.w)
                               /\ agenda' = (agenda \ {x}) \cup Steps(Aut, Head(lines), x)
                               /\ here' = IF Accepts(Aut, Head(lines), x) THEN Append(here, x) ELSE here
          /\ UNCHANGED <<g, lines, n, out>>
NextLine == /\ lines # <<>> /\ ~AtWork
            /\ out' = Append(out, [word |-> Head(lines), runs |-> here])
            /\ lines' = Tail(lines) /\ agenda' = {Start(Aut)} /\ here' = <<>>
            /\ UNCHANGED <<g, n>>
Next == Search \/ NextLine
Spec == Init /\ [][Next]_vars
\* every line gets the best of its runs, each once, best first, whatever the lines before it were
BestPrinted ==
  out # <<>> =>
    LET o == out[Len(out)] M == Runs(Aut, o.word, 0) R == {o.runs[k] : k \in 1..Len(o.runs)}
    IN /\ R \subseteq M /\ Cardinality(R) = Len(o.runs)
       /\ Len(o.runs) = (IF Cardinality(M) < n THEN Cardinality(M) ELSE n)
       /\ \A k \in 1..(Len(o.runs) - 1) : Scaled(o.runs[k].w) >= Scaled(o.runs[k + 1].w)
       /\ \A x \in M \ R, y \in R : Scaled(x.w) <= Scaled(y.w)
\* what was printed stays printed
Kept == [][\A k \in 1..Len(out) : out'[k] = out[k]]_vars
=============================================================================
