"""C23: tree stack automata."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME + ["grammars are ordered, linear, non-deleting and not left recursive; no two rules differ in their weights only"]
    ck.model_check("TsaMC", "TsaMC_thorough.cfg" if ck.thorough else "TsaMC.cfg", min_states=5000)
    small(ck, "pmcfg", "run", ck.n(3, 4), ck.n(4, 4))
    small(ck, "tsa", "run", ck.n(4, 6), ck.n(3, 4))
    rand(ck, ["pmcfg", "pmcfg", "tsa"], "run", ck.n(500, 7000), "tsa-random")
