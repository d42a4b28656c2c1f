"""C24: the order of recognition, and beams."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME + ["which of several items of the same weight is dropped is left open"]
    ck.model_check("BestFirstMC", "BestFirstMC_thorough.cfg" if ck.thorough else "BestFirstMC.cfg", min_states=30000)
    for kind, n in (("fsa", 3), ("pda", 3), ("tsa", 4), ("cfg", 2), ("pmcfg", 2)):
        small(ck, kind, "beam", n + (ck.thorough), 3)
    rand(ck, ["fsa", "pda", "tsa", "cfg", "pmcfg"], "run", ck.n(300, 4000), "beam-random", beams=True)
