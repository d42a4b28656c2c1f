"""C03: unique heaps."""


def random_cases(rng, n, maxlen):
    out = []
    for _ in range(n):
        ne, nw = rng.choice([(2, 2), (4, 3), (6, 10), (12, 4), (1, 5)])
        lo = rng.choice([0, -5])
        pair = lambda: [rng.randint(lo, lo + nw), rng.randint(1, ne)]
        ctor = rng.choice(["iter", "iter", "vec", "vec", "lazy"])
        init = [pair() for _ in range(rng.choice([0, 0, 1, 3, 4 if ctor == "vec" else 6]))]
        bias = rng.choice([0.2, 0.45, 0.6])
        ops = []
        for _ in range(rng.randint(1, maxlen)):
            r = rng.random()
            if r < bias:
                ops.append(dict(op="pop"))
            elif r < 0.97:
                w, e = pair()
                ops.append(dict(op="push", x=e, w=w))
            else:
                ops.append(dict(op="clone"))
        out.append(dict(ctor=ctor, ty=rng.choice(["int", "str"]), hasher=rng.choice(["std", "fnv"]), init=init, ops=ops))
    return out


def big_cases(rng, n):
    out = []
    for _ in range(n):
        ne = rng.choice([30, 120, 400])
        pair = lambda: [rng.randint(-1000, 1000), rng.randint(1, ne)]
        init = [[rng.randint(-9, 9), e] for e in rng.sample(range(1, ne + 1), rng.choice([0, ne // 2, ne]))]
        bias = rng.choice([0, 0.2, 0.45])
        ops = []
        for _ in range(rng.choice([60, 200])):
            if rng.random() < bias:
                ops.append(dict(op="pop"))
            else:
                w, e = pair()
                ops.append(dict(op="push", x=e, w=w))
        ops += [dict(op="pop")] * rng.choice([0, 30, 150])
        out.append(dict(ctor=rng.choice(["iter", "vec", "lazy"]), ty=rng.choice(["int", "str"]), hasher=rng.choice(["std", "fnv"]), init=init, ops=ops))
    return out


def nontrivial(r):
    return any(e.get("op") == "pop" and e.get("res") for e in r["ev"])


def run(ck):
    ck.assumptions += ["a construction from a vector with repeated elements may keep any one of the weights"]
    ck.model_check("UniqueHeapMC", "UniqueHeapMC_thorough.cfg" if ck.thorough else "UniqueHeapMC.cfg", min_states=500)
    gen = ck.generate("UniqueHeapGen", env=dict(GEN_N=ck.n(3, 4)))
    ck.conform("heap-all-scripts", "core", "uniqueheap", "UniqueHeapTrace", gen, nontrivial=nontrivial, batch=40000)
    ck.conform("heap-random", "core", "uniqueheap", "UniqueHeapTrace", random_cases(ck.rng, ck.n(1500, 20000), 50), nontrivial=nontrivial)
    ck.conform("heap-big", "core", "uniqueheap", "UniqueHeapTrace", big_cases(ck.rng, ck.n(60, 600)), nontrivial=nontrivial)
