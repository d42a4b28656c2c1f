"""C02: searches."""


def random_cases(rng, n):
    out = []
    for _ in range(n):
        k = rng.randint(1, 9)
        dens = rng.choice([0.5, 1.2, 2.5])
        succ = [[rng.randrange(k) for _ in range(min(6, int(rng.expovariate(1 / dens) + 0.5)))] for _ in range(k)]
        kind = rng.choice(["lifo", "fifo", "heap", "limited"])
        uniq = kind != "limited" and rng.random() < 0.65
        out.append(dict(kind=kind, uniq=uniq, w=[rng.randint(0, rng.choice([2, 9])) for _ in range(k)], succ=succ,
                        start=[rng.randrange(k) for _ in range(rng.choice([0, 1, 1, 2, 3]))], cap=rng.choice([0, 1, 2, 4, 6, 2000000000]),
                        max=(k + 4) if uniq else rng.choice([6, 12, 25])))
    return out


def big_cases(rng, n):
    """Wide and long graphs; weights are distinct, so that the order is determined."""
    out = []
    for _ in range(n):
        k = rng.choice([20, 35, 70, 150])
        shape = rng.choice(["star", "chain", "tree", "dag", "cycle"])
        if shape == "star":
            succ = [list(range(1, k))] + [[] for _ in range(k - 1)]
        elif shape == "chain":
            succ = [[i + 1] if i + 1 < k else [] for i in range(k)]
        elif shape == "cycle":
            succ = [[(i + 1) % k] for i in range(k)]
        elif shape == "tree":
            b = rng.choice([2, 3, 5])
            succ = [[j for j in range(b * i + 1, b * i + 1 + b) if j < k] for i in range(k)]
        else:
            succ = [sorted(rng.sample(range(i + 1, k), min(k - 1 - i, rng.choice([0, 1, 2, 3])))) if i else rng.sample(range(1, k), k // 2)
                    for i in range(k)]
        for x in succ:
            if rng.random() < 0.5:
                rng.shuffle(x)
        w = list(range(k))
        rng.shuffle(w)
        uniq = shape in ("cycle", "dag") or rng.random() < 0.5
        out.append(dict(kind=rng.choice(["lifo", "fifo", "heap"]), uniq=uniq, w=w, succ=succ, start=[0], cap=0, max=k + 3))
    return out


def nontrivial(r):
    return sum(1 for e in r["ev"] if e.get("res")) >= 2


def run(ck):
    ck.assumptions += ["the order among several initial nodes is left open"]
    ck.model_check("SearchMC", "SearchMC_thorough.cfg" if ck.thorough else "SearchMC.cfg", min_states=1000)
    gen = ck.generate("SearchGen")
    ck.conform("search-all-graphs", "core", "search", "SearchTrace", gen, nontrivial=nontrivial, batch=30000)
    ck.conform("search-random", "core", "search", "SearchTrace", random_cases(ck.rng, ck.n(2500, 30000)), nontrivial=nontrivial)
    ck.conform("search-big", "core", "search", "SearchTrace", big_cases(ck.rng, ck.n(150, 1500)), nontrivial=nontrivial)
