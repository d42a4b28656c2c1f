"""C26: texts of automata; integerisation."""
import auttext
from autcheck import ASSUME, rand


def describe(r):
    return repr("".join(map(chr, r["text"])))


def read(r):
    return bool(r["ev"] and r["ev"][0].get("res") and r["ev"][0]["res"][0]["trs"])


def refused(r):
    return bool(r["ev"]) and r["ev"][0].get("res") == []


def run(ck):
    ck.assumptions += ASSUME[:1] + ["left open: repeated declarations, text after a declaration, missing separators in lists, empty tokens",
                                    "only texts without quotes and control characters in symbols are printed so that they read back"]
    ck.model_check("AutomatonTextMC", "AutomatonTextMC_thorough.cfg" if ck.thorough else "AutomatonTextMC.cfg", min_states=100000)
    con = lambda label, cases, nt: ck.conform(label, "full", "auttext", "AutomatonTextTrace", cases, nontrivial=nt, describe=describe, batch=10000)
    con("text-all-layouts", ck.generate("AutomatonTextGen", "AutomatonTextGen_thorough.cfg" if ck.thorough else None, env=dict(GEN_MODE="layout")), read)
    con("text-all-damages", ck.generate("AutomatonTextGen", "AutomatonTextGen_thorough.cfg" if ck.thorough else None, env=dict(GEN_MODE="damage")), refused)
    con("text-random", auttext.cases(ck.rng, ck.n(3000, 40000), False), read)
    con("text-damage-random", auttext.cases(ck.rng, ck.n(3000, 40000), True), refused)
    rand(ck, ["fsa", "pda", "tsa", "cfg", "pmcfg"], "run", ck.n(400, 4000), "integers-random")
