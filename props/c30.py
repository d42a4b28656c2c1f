"""C30: pruning, limits, files."""
import csparse
from c29 import ASSUME, conform


def pruned(r):
    return any(e["op"] == "parse" and e["beam"] not in (-1, 1000) for e in r["ev"] if "beam" in e)


def run(ck):
    ck.assumptions += ASSUME + ["what a beam or threshold keeps is decided only where all items fit into it"]
    th = ck.thorough
    ck.model_check("CsParsingMC", "CsParsingMC_thorough.cfg" if th else "CsParsingMC.cfg", min_states=5000)
    gen = lambda mode: ck.generate("CsParsingGen", "CsParsingGen_thorough.cfg" if th else None, env=dict(GEN_MODE=mode))
    conform(ck, "all-grammars-limits", gen("limits"), nontrivial=pruned)
    conform(ck, "chains", ck.generate("CsParsingGen", None, env=dict(GEN_MODE="chains")))
    conform(ck, "random-limits", csparse.cases(ck.rng, ck.n(700, 12000), True), nontrivial=pruned)
