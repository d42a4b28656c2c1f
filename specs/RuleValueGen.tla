------------------------------ MODULE RuleValueGen ------------------------------
(* All pairs of small rules of both kinds. *)
EXTENDS RuleValueMC, SequencesExt, Json, IOUtils, TLC
CfgLetters == {<<"N", 1>>, <<"T", 1>>, <<"T", 2>>}
CRules == {[head |-> h, tail |-> <<>>, comp |-> x, w |-> w] : h \in Nts, x \in Upto(CfgLetters, 2), w \in Weights}
Script(r, s) == <<<<"put", r, 1>>, <<"get", s, 0>>, <<"put", s, 2>>, <<"get", r, 0>>, <<"del", r, 0>>, <<"get", s, 0>>>>
Cases_(x_) == {[kind |-> "pmcfg", rules |-> <<r, s>>, script |-> Script(r, s), map |-> <<<<1, 2>>>>] : r \in Rules, s \in Rules}
   \cup {[kind |-> "cfg", rules |-> <<r, s>>, script |-> Script(r, s), map |-> <<>>] : r \in CRules, s \in CRules}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
