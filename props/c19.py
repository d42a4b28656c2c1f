"""C19: configurations, reversed weights, factorisation."""


def conf(rng, neg, small):
    k = 2 if small else 6
    lo = -k if neg else 0
    return dict(word=[rng.randint(-1 if neg else 0, 2) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5 if small else 9]))], storage=rng.randint(0, 2), weight=rng.randint(lo, k))


def big_cases(rng, n):
    out = []
    for _ in range(n):
        wt = rng.choice(["int", "rev", "log"])
        cs = [conf(rng, wt != "log", False) for _ in range(rng.choice([10, 40]))]
        for c in cs:
            c["word"] = c["word"] * rng.choice([1, 1, 10])
        script = [rng.choice(cs) if rng.random() < 0.7 else "pop" for _ in range(rng.choice([30, 100]))]
        out.append(dict(kind="conf", wt=wt, confs=cs[:12], script=script + ["pop"] * rng.choice([3, 60])))
    return out


def cases(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            wt = rng.choice(["int", "rev", "log"])
            small = rng.random() < 0.6
            cs = [conf(rng, wt != "log", small) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
            script = [conf(rng, wt != "log", small) if rng.random() < 0.5 else "pop" for _ in range(rng.choice([0, 4, 12, 30]))]
            if cs and rng.random() < 0.5:
                cs.append(dict(rng.choice(cs), weight=rng.randint(0, 2)))
            out.append(dict(kind="conf", wt=wt, confs=cs, script=script + ["pop"] * 3))
        elif r < 0.6:
            x, y = conf(rng, True, True), conf(rng, True, True)
            if rng.random() < 0.6:
                y = dict(x, **rng.choice([dict(weight=y["weight"]), dict(word=y["word"]), dict(storage=y["storage"])]))
            out.append(dict(kind="conf", wt=rng.choice(["f64", "revf64"]), confs=[x, y]))
        elif r < 0.8:
            out.append(dict(kind="rev", wt=rng.choice(["int", "f64"]), a=rng.randint(-30000, 30000), b=rng.choice([rng.randint(-30000, 30000), rng.randint(-9, 9)])))
        else:
            out.append(dict(kind="fact", wt=rng.choice(["log", "revlog"]), ln=rng.randint(-3000000, 50000), n=rng.choice([1, 2, 3, 5, 10, 50, rng.randint(1, 200)])))
    return out


def run(ck):
    ck.assumptions += ["weights that are not comparable (nan) are not explored", "factors are compared through their natural logarithm, within 2*10^-4"]
    ck.model_check("WeightedMC", "WeightedMC_thorough.cfg" if ck.thorough else "WeightedMC.cfg", min_states=50000)
    gen = ck.generate("WeightedGen")
    ck.conform("weighted-all-small", "core", "weighted", "WeightedTrace", gen, batch=20000)
    ck.conform("weighted-random", "core", "weighted", "WeightedTrace", cases(ck.rng, ck.n(5000, 60000)), batch=10000)
    ck.conform("weighted-big", "core", "weighted", "WeightedTrace", big_cases(ck.rng, ck.n(60, 600)), batch=10000)
