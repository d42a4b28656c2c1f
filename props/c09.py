"""C09: printed grammars read back."""
import gtext


def random_cases(rng, n, size=None):
    out = []
    for _ in range(n):
        kind = rng.choice(["cfg", "pmcfg", "pmcfg", "lcfrs", "lcfrs", "cfgrule", "pmcfgrule"])
        t = gtext.rule(rng, kind[:-4], big=bool(size)) if kind.endswith("rule") else gtext.grammar(rng, kind, size=size and rng.choice(size))
        out.append(dict(kind=kind, sym="str", wt=rng.choice(["f64", "log"]), text=gtext.cps(t), print=True))
    return out


def char_cases(rng, n):
    """Symbols of type char, with escapes of quote and backslash excluded (they are two characters)."""
    out = []
    for _ in range(n):
        pool = list("SABabc") + list(' -→,;)]%#ä„’日(')
        y = lambda: (lambda c: c if c not in gtext.STOP and rng.random() < 0.7 else f'"{c}"')(rng.choice(pool))
        w = lambda: rng.choice(["", " # " + gtext.weight(rng)])
        if rng.random() < 0.5:
            kind = "cfg"
            rules = [f"{y()} → [{', '.join(rng.choice(['T ', 'Nt ']) + y() for _ in range(rng.randint(0, 4)))}]{w()}" for _ in range(rng.randint(1, 4))]
        else:
            kind = "pmcfg"
            el = lambda: rng.choice(["T " + y(), f"Var {rng.randint(0, 3)} {rng.randint(0, 3)}"])
            rules = [f"{y()} → [{', '.join('[' + ', '.join(el() for _ in range(rng.randint(0, 3))) + ']' for _ in range(rng.randint(0, 3)))}]"
                     f" ({', '.join(y() for _ in range(rng.randint(0, 3)))}){w()}" for _ in range(rng.randint(1, 4))]
        t = f"initial: [{', '.join(y() for _ in range(rng.randint(0, 3)))}]\n" + "\n".join(rules)
        out.append(dict(kind=kind, sym="char", wt=rng.choice(["f64", "log"]), text=gtext.cps(t), print=True))
    return out


def escapes(rng, n):
    out = []
    for _ in range(n):
        body = "".join(rng.choice(["a", " ", '\\"', "\\\\", "→", "%"]) for _ in range(rng.randint(1, 5)))
        t = f'initial: ["{body}"]\n"{body}" → [[T "{body}", Var 0 0]] ("{body}") # {gtext.weight(rng)}\n'
        out.append(dict(kind=rng.choice(["pmcfg", "lcfrs"]), sym="str", wt="f64", text=gtext.cps(t), print=True))
    return out


def describe(r):
    return "".join(map(chr, r["text"]))


def nontrivial(r):
    return len(r["ev"]) == 3 and bool(r["ev"][0]["res"][0]["rules"])


def run(ck):
    ck.assumptions += ["log-domain weights are compared to within 1e-6 of the value and 1e-4 of the logarithm"]
    ck.model_check("GrammarTextMC", "GrammarTextMC_thorough.cfg" if ck.thorough else "GrammarTextMC.cfg", min_states=10000)
    gen = ck.generate("GrammarTextGen", "GrammarTextGen_thorough.cfg" if ck.thorough else None, env=dict(GEN_MODE="layout"))
    for g in gen:
        g["print"] = True
    ck.conform("print-all-layouts", "core", "gtext", "GrammarTextTrace", gen, nontrivial=nontrivial, describe=describe, batch=20000)
    ck.conform("print-random", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(2500, 40000)), nontrivial=nontrivial,
               describe=describe, batch=10000)
    ck.conform("print-char", "core", "gtext", "GrammarTextTrace", char_cases(ck.rng, ck.n(1000, 15000)), nontrivial=nontrivial,
               describe=describe, batch=10000)
    ck.conform("print-escapes", "core", "gtext", "GrammarTextTrace", escapes(ck.rng, ck.n(300, 3000)), nontrivial=nontrivial,
               describe=describe, batch=10000)
    ck.conform("print-big", "core", "gtext", "GrammarTextTrace", random_cases(ck.rng, ck.n(100, 1000), (15, 40)), nontrivial=nontrivial,
               describe=describe, batch=10000)
