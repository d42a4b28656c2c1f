"""C16: PMCFG to CFG."""
import grams


def cases(rng, n, **scale):
    out = []
    for _ in range(n):
        names, rules = grams.grammar(rng, linear=rng.random() < 0.5, delete=rng.choice([0, 0.2]), onecomp=rng.random() < 0.95, undefined=0.05, fault=rng.choice([0, 0, 0, 0, 0.05] if not scale else [0, 0, 0.005]),
                                     maxtail=rng.choice([3, 12] if not scale else [3, 30]), **scale)
        out.append(dict(kind="cfg", initial=[rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 3]))], rules=rules))
    return out


def run(ck):
    ck.assumptions += ["a refusal is a panic, as the conversion is infallible by type"]
    ck.model_check("GrammarsMC", "GrammarsMC_thorough.cfg" if ck.thorough else "GrammarsMC.cfg", min_states=10000)
    gen = ck.generate("GrammarsGen", env=dict(GEN_KIND="cfg", GEN_N=3))
    good = lambda r: any(e["op"] == "cfg" and e["res"] and e["res"][0]["rules"] for e in r["ev"])
    ck.conform("cfg-all-lists", "core", "grammars", "GrammarsTrace", gen, describe=grams.describe, batch=20000, nontrivial=good)
    ck.conform("cfg-random", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(3000, 40000)), describe=grams.describe, batch=10000, nontrivial=good)
    ck.conform("cfg-big", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(60, 600), nts=30, rules=70), describe=grams.describe, batch=10000, nontrivial=good)
