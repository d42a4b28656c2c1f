------------------------------- MODULE WeightedGen -------------------------------
(* All pairs of small configurations, all pairs of small weights, all small factorisations. *)
EXTENDS WeightedMC, SequencesExt, Json, IOUtils, TLC
Wts == {"int", "rev", "f64", "revf64", "log"}
Ks == -3..4
Cases_(x_) == {[kind |-> "conf", wt |-> t, confs |-> <<a, b>>] : t \in Wts, a \in Confs, b \in Confs}
   \cup {[kind |-> "rev", wt |-> t, a |-> a, b |-> b] : t \in {"int", "f64"}, a \in Ks, b \in Ks}
   \cup {[kind |-> "fact", wt |-> t, ln |-> e, n |-> n] : t \in {"log", "revlog"}, e \in {-200000, -69315, -30000, -10000, -1, 0, 1, 20000, 123456}, n \in 1..9}
   \cup {[kind |-> "fact", wt |-> "unit", ln |-> 0, n |-> n] : n \in 0..9}
   \cup {[kind |-> "zero", wt |-> t, n |-> n] : t \in {"log", "revlog"}, n \in 1..4}
   \cup {[kind |-> "item", wt |-> t, a |-> a, b |-> b, i |-> k] : t \in {"int", "rev"}, a \in Ks, b \in Ks, k \in {0, 1}}
   \cup {[kind |-> "item", wt |-> "log", a |-> a, b |-> b, i |-> k] : a \in 0..4, b \in 0..4, k \in {0, 1}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
