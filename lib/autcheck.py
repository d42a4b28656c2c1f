"""What the checks of the automata (C22-C25, C27, C28) have in common."""
import autgen

found = lambda r: any(e.get("op") in ("recog", "c2f", "beam") and e["runs"] for e in r["ev"])
ASSUME = ["a harness crate of the whole of rustomata, with a stand-in for the integeriser crate that is not in the sandbox (first come, first numbered)",
          "weights are dyadic numbers (LogDomain), measured exactly in units of 2^-24",
          "searches are finite, or only asked for results better than everything still pending"]


def small(ck, kind, what, n, word, label=None):
    gen = ck.generate("AutomataGen", env=dict(GEN_KIND=kind, GEN_WHAT=what, GEN_N=n, GEN_WORD=word))
    ck.conform(label or "%s-%s-small" % (kind, what), "full", "autom", "AutomataTrace", gen, nontrivial=found, batch=2000)


def rand(ck, kinds, what, n, label, **kw):
    ck.conform(label, "full", "autom", "AutomataTrace", autgen.cases(ck.rng, n, kinds, what=what, **kw), nontrivial=found, batch=2000)
