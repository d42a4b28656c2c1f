"""C04: vector multimaps."""


def random_cases(rng, n, maxlen):
    out = []
    for _ in range(n):
        via = rng.choice(["map", "adapter"])
        m = rng.choice([1, 3, 6, 20])
        ops = []
        for _ in range(rng.randint(0, maxlen)):
            o = rng.choice(["push", "push", "get", "fail", "index", "mut"])
            d = dict(op=o, i=rng.randint(0, m))
            if o == "mut":
                d["s"] = [rng.randint(0, 9) for _ in range(rng.choice([0, 0, 1, 2]))]
            ops.append(d)
        init = [[rng.randint(0, 9) for _ in range(rng.choice([0, 1, 2]))] for _ in range(rng.choice([0, 0, 1, 4, 7]))] if via == "adapter" else []
        end = rng.choice([[], [0], [rng.randint(0, m + 3)]]) if via == "map" else []
        out.append(dict(via=via, ty=rng.choice(["int", "str"]), init=init, ops=ops, end=end))
    return out


def big_cases(rng, n):
    """Long lists, indices far beyond the size."""
    out = []
    for _ in range(n):
        via = rng.choice(["map", "adapter"])
        m = rng.choice([2, 40, 300])
        ops = []
        for _ in range(rng.choice([40, 120])):
            o = rng.choice(["push", "push", "push", "push", "get", "fail", "index", "mut"])
            d = dict(op=o, i=rng.randint(0, m))
            if o == "mut":
                d["s"] = [rng.randint(0, 9) for _ in range(rng.choice([0, 1, 20]))]
            ops.append(d)
        init = [[rng.randint(0, 9) for _ in range(rng.choice([0, 1, 30]))] for _ in range(rng.choice([0, 30, 100]))] if via == "adapter" else []
        end = rng.choice([[], [0], [rng.randint(0, m + 3)], [500]]) if via == "map" else []
        out.append(dict(via=via, ty=rng.choice(["int", "str"]), init=init, ops=ops, end=end))
    return out


def nontrivial(r):
    return any(e.get("op") == "push" for e in r["ev"])


def run(ck):
    ck.model_check("VecMultiMapMC", "VecMultiMapMC_thorough.cfg" if ck.thorough else "VecMultiMapMC.cfg", min_states=500)
    gen = ck.generate("VecMultiMapGen", env=dict(GEN_N=ck.n(3, 4)))
    ck.conform("map-all-scripts", "core", "vecmm", "VecMultiMapTrace", gen, nontrivial=nontrivial, batch=40000)
    ck.conform("map-random", "core", "vecmm", "VecMultiMapTrace", random_cases(ck.rng, ck.n(2000, 30000), 25), nontrivial=nontrivial)
    ck.conform("map-big", "core", "vecmm", "VecMultiMapTrace", big_cases(ck.rng, ck.n(60, 600)), nontrivial=nontrivial)
