"""C32: transitions as values, numbered and filed by automata."""


def instr(rng, kind, n, wide):
    x = lambda: rng.randint(1, n)
    if kind == "pd":
        side = lambda lo: [x() for _ in range(rng.choice([max(lo, 0), 1, 1, 2, 3] if not wide else [1, 8, 30]))]
        return ["R", side(rng.choice([0, 1, 1, 1])), side(0)]
    if kind == "fs":
        return ["F", x(), x()]
    k = rng.choice(["Up", "Push", "Down"])
    return {"Up": ["Up", rng.choice([0, 1, 2, 9]), x(), x(), x()], "Push": ["Push", rng.choice([0, 1, 2, 9]), x(), x()], "Down": ["Down", x(), x(), x()]}[k]


def near(rng, t, n):
    u = dict(word=list(t["word"]), w=t["w"], ins=[list(x) if isinstance(x, list) else x for x in t["ins"]])
    what = rng.randrange(5)
    if what == 0:
        u["w"] += rng.choice([-1, 1])
    elif what == 1 and u["word"]:
        u["word"][rng.choice([0, -1])] += 1
    elif what == 2:
        u["word"] = u["word"][:-1] if u["word"] and rng.random() < 0.5 else u["word"] + [rng.randint(1, n)]
    elif what == 3 and u["ins"][0] == "R":
        s = u["ins"][rng.choice([1, 2])]
        if s:
            s[rng.choice([0, -1])] = rng.randint(1, n)
    elif what == 3:
        u["ins"][rng.randrange(1, len(u["ins"]))] = rng.randint(1, n)
    elif what == 4 and u["ins"][0] == "R":
        u["ins"][1], u["ins"][2] = u["ins"][2], u["ins"][1]
    return u


def cases(rng, n, big=False):
    out = []
    for _ in range(n):
        kind = rng.choice(["pd", "ts", "fs"])
        m = rng.choice([1, 2, 4, 30]) if not big else 200
        ts = []
        for _ in range(rng.choice([1, 2, 3]) if not big else 8):
            word = [rng.randint(1, m) for _ in range(rng.choice([0, 1, 1, 2, 4]) if not big else rng.choice([0, 20, 60]))]
            ts.append(dict(word=word, w=rng.randint(-2, 3), ins=instr(rng, kind, m, big)))
        while len(ts) < (6 if not big else 12) and rng.random() < 0.8:
            ts.append(near(rng, rng.choice(ts), m))
        rng.shuffle(ts)
        script = [[rng.choice(["t", "t", "back"]), rng.randint(1, len(ts))] for _ in range(rng.choice([2, 8, 16]))]
        out.append(dict(kind=kind, trans=ts, script=script))
    return out


def run(ck):
    ck.assumptions += ["symbols and weights are 64-bit integers; the integeriser is the stand-in (a one-to-one table in order of appearance)",
                       "pushdown transitions that ask for no symbol at all are compared and numbered, but no automaton is built from them"]
    ck.model_check("TransitionValueMC", "TransitionValueMC_thorough.cfg" if ck.thorough else "TransitionValueMC.cfg", min_states=20000)
    gen = ck.generate("TransitionValueGen")
    if not ck.thorough:
        ck.rng.shuffle(gen)
        gen = gen[:3000]
    ck.conform("transitions-all-pairs", "full", "transitions", "TransitionValueTrace", gen, batch=20000)
    ck.conform("transitions-random", "full", "transitions", "TransitionValueTrace", cases(ck.rng, ck.n(1500, 20000)), batch=10000,
               nontrivial=lambda r: any(e.get("op") == "cmp" and e["i"] != e["j"] and e["eq"] for e in r["ev"]))
    ck.conform("transitions-big", "full", "transitions", "TransitionValueTrace", cases(ck.rng, ck.n(60, 600), True), batch=10000)
