"""C27: approximations."""
from autcheck import ASSUME, rand, small


def run(ck):
    ck.assumptions += ASSUME + ["relabellings keep the symbol at the bottom apart"]
    ck.model_check("ApproxMC", "ApproxMC_thorough.cfg" if ck.thorough else "ApproxMC.cfg", min_states=15000)
    small(ck, "cfg", "approx", ck.n(2, 3), 3)
    small(ck, "pda", "approx", ck.n(3, 5), 3)
    small(ck, "tsa", "approx", ck.n(4, 5), 3)
    small(ck, "pmcfg", "approx", ck.n(2, 3), 3)
    rand(ck, ["cfg", "pda", "tsa", "pmcfg"], "approx", ck.n(400, 5000), "approx-random", n_chain=1)
