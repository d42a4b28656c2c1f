"""C22: pushdown automata."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME + ["grammars are not left recursive", "transitions of a pushdown automaton ask for at least one symbol and leave one on the stack"]
    ck.model_check("PdaMC", "PdaMC_thorough.cfg" if ck.thorough else "PdaMC.cfg", min_states=20000)
    small(ck, "cfg", "run", ck.n(3, 4), ck.n(3, 4))
    small(ck, "pda", "run", ck.n(3, 5), ck.n(4, 4))
    rand(ck, ["cfg", "cfg", "pda"], "run", ck.n(600, 8000), "pda-random")
