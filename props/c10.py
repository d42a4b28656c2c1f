"""C10: malformed texts are refused with an error, never with a crash."""
import gtext


def random_cases(rng, n, size=None):
    out = []
    for _ in range(n):
        kind = rng.choice(["cfg", "pmcfg", "lcfrs", "cfgrule", "pmcfgrule", "pmcfgrule"])
        if rng.random() < 0.1:
            t = gtext.noise(rng)
        else:
            t = gtext.rule(rng, kind[:-4], big=bool(size)) if kind.endswith("rule") else gtext.grammar(rng, kind, size=size and rng.choice(size))
            t = gtext.damage(rng, t)
        out.append(dict(kind=kind, sym="str", wt=rng.choice(["f64", "log"]), text=gtext.cps(t), print=False))
    return out


def describe(r):
    return repr("".join(map(chr, r["text"])))


def nontrivial(r):
    return bool(r["ev"]) and r["ev"][0].get("res") == []


def run(ck):
    ck.assumptions += ["an error is demanded where a required part is missing or a weight cannot be read; elsewhere only that no panic occurs"]
    ck.model_check("GrammarTextMC", "GrammarTextMC_thorough.cfg" if ck.thorough else "GrammarTextMC.cfg", min_states=10000)
    gen = ck.generate("GrammarTextGen", env=dict(GEN_MODE="damage"))
    for g in gen:
        g["print"] = False
    ck.conform("damage-all", "core", "gtext", "GrammarTextTrace", gen, nontrivial=nontrivial, describe=describe, batch=20000)
    ck.conform("damage-random", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(6000, 80000)), nontrivial=nontrivial,
               describe=describe, batch=10000)
    ck.conform("damage-big", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(100, 1000), (15, 40)), describe=describe, batch=10000)
