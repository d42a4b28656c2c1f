"""C31: rules as values."""


def rule(rng, kind, small, big=False):
    k = 2 if small else 5
    m = rng.choice([0, 1, 1, 2, 3]) if not big else rng.choice([1, 8, 20])
    if kind == "cfg":
        return dict(head=rng.randint(1, k), tail=[], comp=[[rng.choice("NT"), rng.randint(0, k)] for _ in range(m)], w=rng.randint(-2, 2))
    comp = [[["V", rng.randint(0, 2), rng.randint(0, 2)] if rng.random() < 0.5 else ["T", rng.randint(0, k)] for _ in range(rng.choice([0, 1, 2, 4] if not big else [0, 1, 2, 20]))] for _ in range(m)]
    return dict(head=rng.randint(1, k), tail=[rng.randint(1, k) for _ in range(rng.choice([0, 1, 2, 3] if not big else [0, 8, 20]))], comp=comp, w=rng.randint(-2, 2))


def near(rng, r, kind):
    """A rule that differs in little from r."""
    q = dict(r, tail=list(r["tail"]), comp=[list(x) for x in r["comp"]])
    what = rng.randrange(8)
    if what == 0:
        q["w"] += rng.choice([-1, 1])
    elif what == 1:
        q["head"] += 1
    elif what == 2 and q["tail"] and kind == "pmcfg":
        q["tail"][rng.randrange(len(q["tail"]))] += 1
    elif what == 3 and q["tail"]:
        q["tail"].reverse()
    elif what == 4 and q["comp"]:
        q["comp"].reverse()
    elif what == 5 and q["comp"]:
        q["comp"].pop()
    elif what == 6 and kind == "pmcfg" and len(q["comp"]) > 1:
        p = rng.randrange(len(q["comp"]) - 1)
        q["comp"][p], q["comp"][p + 1] = q["comp"][p] + q["comp"][p + 1], []
    elif what == 7 and q["comp"]:
        p = rng.choice([0, len(q["comp"]) - 1, rng.randrange(len(q["comp"]))])
        if kind == "cfg":
            q["comp"][p] = rng.choice([["T" if q["comp"][p][0] == "N" else "N", q["comp"][p][1]], [q["comp"][p][0], q["comp"][p][1] + 1]])
        elif q["comp"][p]:
            k = rng.choice([0, len(q["comp"][p]) - 1])
            q["comp"][p][k] = ["T", rng.randint(0, 3)] if rng.random() < 0.5 else ["V", rng.randint(0, 2), rng.randint(0, 2)]
    return q


def cases(rng, n, big=False):
    out = []
    for _ in range(n):
        kind = rng.choice(["cfg", "pmcfg"])
        rules = [rule(rng, kind, rng.random() < 0.6, big) for _ in range(rng.choice([1, 2, 3]))]
        while len(rules) < 6 and rng.random() < 0.8:
            rules.append(near(rng, rng.choice(rules), kind))
        rng.shuffle(rules)
        script = [[rng.choice(["put", "put", "get", "del"]), dict(rng.choice(rules), w=rng.randint(0, 3)), rng.randint(0, 9)] for _ in range(rng.choice([0, 6, 20]))]
        out.append(dict(kind=kind, rules=rules, script=script, map=[[x, rng.randint(1, 6)] for x in range(1, 6) if rng.random() < 0.5]))
    return out


def run(ck):
    ck.assumptions += ["symbols and weights are 64-bit integers"]
    ck.model_check("RuleValueMC", "RuleValueMC_thorough.cfg" if ck.thorough else "RuleValueMC.cfg", min_states=5000)
    gen = ck.generate("RuleValueGen")
    if not ck.thorough:
        ck.rng.shuffle(gen)
        gen = gen[:3000]
    ck.conform("rules-all-pairs", "core", "rules", "RuleValueTrace", gen, batch=20000)
    ck.conform("rules-random", "core", "rules", "RuleValueTrace", cases(ck.rng, ck.n(2000, 30000)), batch=10000,
               nontrivial=lambda r: any(e.get("op") == "cmp" and e["i"] != e["j"] and e["eq"] for e in r["ev"]))
    ck.conform("rules-big", "core", "rules", "RuleValueTrace", cases(ck.rng, ck.n(100, 1000), True), batch=10000)
