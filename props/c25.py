"""C25: finite state automata."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME
    ck.model_check("FsaMC", "FsaMC_thorough.cfg" if ck.thorough else "FsaMC.cfg", min_states=4000)
    small(ck, "fsa", "run", ck.n(4, 6), ck.n(4, 4))
    rand(ck, ["fsa"], "run", ck.n(1000, 12000), "fsa-random")
