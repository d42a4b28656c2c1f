"""C14: classes of grammars."""
import grams


def cases(rng, n, **scale):
    out = []
    for _ in range(n):
        big = rng.random() < (0.5 if scale else 0.1)
        if scale and rng.random() < 0.5:
            names, rules = grams.grammar(rng, linear=True, delete=0, maxfan=12 if big else 3, **scale)
            out.append(dict(kind="class", initial=[names[0]], rules=rules))
            continue
        names, rules = grams.grammar(rng, linear=rng.random() < 0.8, delete=rng.choice([0, 0, 0, 0.1] if not scale else [0, 0, 0.01]), fault=rng.choice([0, 0, 0, 0.1, 0.4] if not scale else [0, 0, 0.01]), undefined=rng.choice([0, 0, 0, 0.1] if not scale else [0, 0, 0.01]),
                                     maxfan=12 if big else 3, maxtail=12 if big else 3, **scale)
        ini = rng.choice([[names[0]]] * 8 + [[], [names[0], names[-1]], ["U"], [names[-1]]])
        out.append(dict(kind="class", initial=ini, rules=rules))
    return out


def run(ck):
    ck.model_check("GrammarsMC", "GrammarsMC_thorough.cfg" if ck.thorough else "GrammarsMC.cfg", min_states=10000)
    gen = ck.generate("GrammarsGen", env=dict(GEN_KIND="class", GEN_N=3))
    good = lambda r: any(e["op"] == "normal" for e in r["ev"])
    ck.conform("class-all-lists", "core", "grammars", "GrammarsTrace", gen, describe=grams.describe, batch=20000, nontrivial=good)
    ck.conform("class-random", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(6000, 60000)), describe=grams.describe, batch=10000, nontrivial=good)
    ck.conform("class-big", "core", "grammars", "GrammarsTrace", cases(ck.rng, ck.n(60, 600), nts=30, rules=60), describe=grams.describe, batch=10000, nontrivial=good)
