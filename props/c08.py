"""C08: grammar texts are read as documented."""
import gtext


def random_cases(rng, n, pr, size=None):
    out = []
    for _ in range(n):
        kind = rng.choice(["cfg", "cfg", "pmcfg", "pmcfg", "lcfrs", "cfgrule", "pmcfgrule"])
        t = gtext.rule(rng, kind[:-4], big=bool(size)) if kind.endswith("rule") else gtext.grammar(rng, kind, size=size and rng.choice(size))
        out.append(dict(kind=kind, sym="str", wt=rng.choice(["f64", "log"]), text=gtext.cps(t), print=pr))
    return out


def describe(r):
    return "".join(map(chr, r["text"]))


def nontrivial(r):
    return bool(r["ev"] and r["ev"][0].get("res") and r["ev"][0]["res"][0]["rules"])


def run(ck):
    ck.assumptions += ["texts outside the documented format (missing separators, text after a rule, tabs inside bare symbols) are left open",
                       "weights are compared as millionths"]
    ck.model_check("GrammarTextMC", "GrammarTextMC_thorough.cfg" if ck.thorough else "GrammarTextMC.cfg", min_states=10000)
    gen = ck.generate("GrammarTextGen", "GrammarTextGen_thorough.cfg" if ck.thorough else None, env=dict(GEN_MODE="layout"))
    for g in gen:
        g["print"] = False
    ck.conform("text-all-layouts", "core", "gtext", "GrammarTextTrace", gen, nontrivial=nontrivial, describe=describe, batch=20000)
    ck.conform("text-random", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(4000, 60000), False), nontrivial=nontrivial,
               describe=describe, batch=10000)
    ck.conform("text-big", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(100, 1000), False, (15, 40)), nontrivial=nontrivial,
               describe=describe, batch=10000)
