"""C15: MCFG to LCFRS."""
import grams


def cases(rng, n, **scale):
    out = []
    for _ in range(n):
        big = rng.random() < 0.1
        names, rules = grams.grammar(rng, delete=rng.choice([0, 0.2, 0.4, 0.8]), undefined=rng.choice([0, 0, 0, 0.1]), maxfan=12 if big else 4, maxtail=11 if big else 3,
                                     **(scale or dict(nts=3 if big else None)))
        out.append(dict(kind="conv", initial=[names[0] if rng.random() < 0.95 else rng.choice(names + ["U"])], rules=rules))
    return out


def run(ck):
    ck.assumptions += ["the nonterminals of the converted grammar are compared by name (nonterminal, set of deleted components), the rules as a bag"]
    ck.model_check("GrammarsMC", "GrammarsMC_thorough.cfg" if ck.thorough else "GrammarsMC.cfg", min_states=10000)
    gen = ck.generate("GrammarsGen", env=dict(GEN_KIND="conv", GEN_N=3))
    good = lambda r: any(e["op"] == "conv" and any(q["head"][1] for q in e["res"]["rules"]) for e in r["ev"])
    ck.conform("conv-all-lists", "core", "grammars", "GrammarsTrace", gen, describe=grams.describe, batch=20000, nontrivial=good)
    ck.conform("conv-random", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(3000, 40000)), describe=grams.describe, batch=10000, nontrivial=good)
    ck.conform("conv-big", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(60, 600), nts=14, rules=40), describe=grams.describe, batch=10000, nontrivial=good)
