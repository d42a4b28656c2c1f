"""C20: multiple Dyck languages."""


def groups(rng, cells, n, depth):
    """A random forest (list of [symbol, inside]) that belongs to the language: n groups."""
    slots = []
    for _ in range(n):
        cell = rng.choice(cells)
        insides = [[] for _ in cell]
        if depth and rng.random() < 0.6:
            inner = groups(rng, cells, rng.choice([1, 1, 2]), depth - 1)
            for it in inner:        # any distribution over the insides
                rng.choice(insides).append(it)
        for x, ins in zip(cell, insides):
            slots.append([x, ins])
    rng.shuffle(slots)
    return slots


def flat(items):
    return [b for x, ins in items for b in [["o", x]] + flat(ins) + [["c", x]]]


def random_cases(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([2, 3, 4, 6])
        syms = list(range(1, k + 1))
        rng.shuffle(syms)
        cells, i = [], 0
        while i < k:
            j = i + rng.choice([1, 1, 2, 2, 3])
            cells.append(syms[i:j])
            i = j
        if rng.random() < 0.7:      # the sorts of a cell agree
            cs = [(c, rng.randint(0, 2)) for c in cells]
            sort = [next(s for c, s in cs if x in c) for x in range(1, k + 1)]
        else:
            sort = [rng.randint(0, 3) for _ in range(k)]
        if rng.random() < 0.15:
            sort = [s * 50 for s in sort]
        words = []
        while len(words) < 8:
            w = flat(groups(rng, cells, rng.choice([1, 1, 2, 3]), 2))
            if len(w) > 16:
                continue
            r = rng.random()
            if w and r < 0.15:
                w[rng.randrange(len(w))][1] = rng.randint(1, k + 1)
            elif w and r < 0.25:
                del w[rng.randrange(len(w))]
            elif len(w) > 1 and r < 0.35:
                i, j = rng.randrange(len(w)), rng.randrange(len(w))
                w[i], w[j] = w[j], w[i]
            elif r < 0.5 and w:     # rename a pair
                i = next(i for i, b in enumerate(w) if b[0] == "o")
                x, d = w[i][1], 0
                y = rng.randint(1, k)
                for b in w[i:]:
                    d += 1 if b[0] == "o" else -1
                    if d == 0:
                        b[1] = y
                        break
                w[i][1] = y
            words.append(w)
        out.append(dict(cells=cells, sort=sort, words=words, ty=rng.choice(["int", "str"])))
    return out


def nontrivial(r):
    return any(e.get("res") is True and e["w"] for e in r["ev"]) and any(e.get("res") is False for e in r["ev"])


def run(ck):
    ck.assumptions += ["words of at most 16 brackets; sorts up to 150"]
    ck.model_check("MultipleDyckMC", "MultipleDyckMC_thorough.cfg" if ck.thorough else "MultipleDyckMC.cfg", min_states=50000)
    gen = ck.generate("MultipleDyckGen", env=dict(GEN_N=ck.n(6, 8)))
    ck.conform("mdyck-all-words", "full", "mdyck", "MultipleDyckTrace", gen, nontrivial=nontrivial)
    ck.conform("mdyck-random", "full", "mdyck", "MultipleDyckTrace", random_cases(ck.rng, ck.n(800, 12000)), nontrivial=nontrivial)
