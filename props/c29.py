"""C29: Chomsky-Schuetzenberger parsing without limits; C30 uses the same machinery."""
import csparse

ASSUME = ["grammars in normal form, valid by Lcfrs::new, every nonterminal with at least one component, all rules different",
          "rule weights are positive and at most 1 (negative powers of 2); chains that go round have a weight below 1",
          "among equally good parses any order is accepted"]


def describe(r):
    return "init %s est %s rules %s" % (r["init"], r["est"], "; ".join("%s(%s)<-%s#%s" % (x["head"], ",".join("".join("%s%s" % (v[0], "".join(map(str, v[1:]))) for v in c) for c in x["comp"]),
                                                                                " ".join(x["tail"]), x["e"]) for x in r["rules"]))[:400]


def several(r):
    return any(len(e.get("out", [])) > 1 for e in r["ev"])


def fell(r):
    return any(e.get("fall") and not e["out"] for e in r["ev"])


def conform(ck, label, cases, nontrivial=several, batch=400):
    ck.conform(label, "full", "csparse", "CsParsingTrace", cases, nontrivial=nontrivial, describe=describe, batch=batch)


def run(ck):
    ck.assumptions += ASSUME
    th = ck.thorough
    ck.model_check("CsParsingMC", "CsParsingMC_thorough.cfg" if th else "CsParsingMC.cfg", min_states=5000)
    gen = lambda mode: ck.generate("CsParsingGen", "CsParsingGen_thorough.cfg" if th else None, env=dict(GEN_MODE=mode))
    conform(ck, "all-grammars-exact", gen("exact"))
    conform(ck, "chains", ck.generate("CsParsingGen", None, env=dict(GEN_MODE="chains")))
    conform(ck, "random-exact", csparse.cases(ck.rng, ck.n(700, 6000), False), nontrivial=fell)
    conform(ck, "long-words", csparse.long(ck.rng, [40, 60, 257] if th else [20, 40]), nontrivial=lambda r: True, batch=4)
