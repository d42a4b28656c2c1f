"""C28: coarse-to-fine recognition."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME + ["relabellings keep the symbol at the bottom apart", "the searches of all coarser automata are finite, too"]
    ck.model_check("CoarseFineMC", "CoarseFineMC_thorough.cfg" if ck.thorough else "CoarseFineMC.cfg", min_states=5000)
    small(ck, "cfg", "c2f", ck.n(2, 3), 3)
    small(ck, "pda", "c2f", ck.n(3, 5), 3)
    small(ck, "tsa", "c2f", ck.n(4, 5), 3)
    small(ck, "pmcfg", "c2f", ck.n(3, 3), 3)
    rand(ck, ["cfg", "pda", "tsa", "pmcfg"], "c2f", ck.n(400, 5000), "c2f-random")
