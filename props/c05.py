"""C05: partitions."""


def random_cases(rng, n, sizes=(3, 6, 8), most=5):
    out = []
    for _ in range(n):
        k = rng.choice(sizes)
        syms = list(range(k))
        rng.shuffle(syms)
        cells = [[] for _ in range(rng.randint(1, most))]
        for x in syms[:rng.randint(0, k)]:
            rng.choice(cells).append(x)
        other = [list(c) for c in cells if c or rng.random() < 0.5]
        rng.shuffle(other)
        for c in other:
            rng.shuffle(c)
        if rng.random() < 0.3 and other:
            i, j = rng.randrange(len(other)), rng.randrange(len(other))
            if i != j:
                other[i] = other[i] + other[j]
                del other[j]
        if rng.random() < 0.3:
            rng.choice(cells).append(rng.randrange(k))
        out.append(dict(cells=[sorted(set(c)) for c in cells], other=other, ty=rng.choice(["int", "str"])))
    return out


def nontrivial(r):
    return r["ev"] and r["ev"][0].get("res") is True and any(r["cells"])


def run(ck):
    ck.model_check("PartitionMC", "PartitionMC_thorough.cfg" if ck.thorough else "PartitionMC.cfg", min_states=100)
    gen = ck.generate("PartitionGen", env=dict(GEN_N=ck.n(3, 4)))
    ck.conform("partition-all", "core", "partition", "PartitionTrace", gen, nontrivial=nontrivial, batch=40000)
    ck.conform("partition-random", "core", "partition", "PartitionTrace", random_cases(ck.rng, ck.n(2000, 20000)), nontrivial=nontrivial)
    ck.conform("partition-big", "core", "partition", "PartitionTrace", random_cases(ck.rng, ck.n(60, 600), (30, 70), 25), nontrivial=nontrivial)
