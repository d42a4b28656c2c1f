"""Random derivation trees of PMCFG rules."""


def cps(t):
    return [ord(x) for x in t]


WORDS = ["a", "b", "c", "d", "aa", "ab", "B", "S", "ä", "日本", "$(", "--", "#500", "500", "x y", "0"]
NTS = ["S", "A", "B", "a", "b", "aa", "NP", "VP|<NP>", "ROOT", "ä"]


def grow(rng, size, faulty=0.0, normal=False, mono=False, words=None, deep=7, wide=11):
    """A tree with about size nodes; returns [[address, rule], ...]; consistent unless faulty."""
    words = words or rng.choice([WORDS, WORDS[:3], ["a"], NTS])
    nodes = []
    budget = [size]

    def node(addr, head, fan):
        budget[0] -= 1
        nt = 0
        if budget[0] > 0 and len(addr) < deep:
            nt = min(rng.choice([0, 1, 1, 2, 2, 3, wide if rng.random() < (0.03 if wide == 11 else 0.3) else 2]), budget[0])
        if not addr and size > 1 and nt == 0:
            nt = 1
        kids = [(rng.choice(NTS), rng.choice([1, 1, 1, 2, 2, 3, 0 if rng.random() < 0.1 else 1])) for _ in range(nt)]
        comps = [[] for _ in range(fan)]
        if nt == 0:
            if normal:
                if fan and rng.random() < 0.9:
                    rng.choice(comps).append(["T", cps(rng.choice(words))])
            else:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    if fan:
                        rng.choice(comps).append(["T", cps(rng.choice(words))])
        else:
            use = [(i, j) for i, (_, f) in enumerate(kids) for j in range(f)]
            if not mono:
                if rng.random() < 0.25 and use:
                    use.remove(rng.choice(use))
                if rng.random() < 0.2 and use:
                    use.append(rng.choice(use))
            if rng.random() < 0.6:
                rng.shuffle(use)
            if fan:
                for i, j in use:
                    rng.choice(comps[:] if rng.random() < 0.9 else comps[:1]).append(["V", i, j])
                if not normal:
                    for _ in range(rng.choice([0, 0, 1, 2, 3])):
                        c = rng.choice(comps)
                        c.insert(rng.choice([0, rng.randint(0, len(c))]), ["T", cps(rng.choice(words))])
            if faulty and rng.random() < faulty and fan:
                c = rng.choice(comps)
                c.insert(rng.randint(0, len(c)), ["V", rng.randint(0, nt + 1), rng.randint(0, 3)])
        rule = dict(head=cps(head), tail=[cps(k) for k, _ in kids], comp=comps, w=rng.randint(-5, 1000))
        nodes.append([addr, rule])
        for i, (k, f) in enumerate(kids):
            if not (faulty and rng.random() < faulty / 2):
                node(addr + [i], k, f)
    node([], rng.choice(NTS), rng.choice([1, 1, 1, 2, 3]))
    rng.shuffle(nodes)
    return nodes


def length(nodes):
    """The number of words of the root's value (0 if undefined)."""
    t = {tuple(a): r for a, r in nodes}

    def comp(a, m):
        n = 0
        for x in t[a]["comp"][m]:
            n += 1 if x[0] == "T" else comp(a + (x[1],), x[2])
        return n
    try:
        return sum(comp((), m) for m in range(len(t[()]["comp"])))
    except (KeyError, IndexError):
        return 0


def work(nodes):
    """How many steps the recursive evaluation of the specification takes at all addresses together."""
    t = {tuple(a): r for a, r in nodes}
    total = 0
    memo = {}
    for a in sorted(t, key=len, reverse=True):
        down = 1
        for m, c in enumerate(t[a]["comp"]):
            memo[a, m] = 1 + len(c) + sum(memo.get((a + (x[1],), x[2]), 0) for x in c if x[0] == "V")
            total += 2 * memo[a, m]
        for i, j in {(x[1], x[2]) for c in t[a]["comp"] for x in c if x[0] == "V"}:
            down += memo.get((a + (i,), "d"), 0)
        memo[a, "d"] = down
        total += down
    return total


def describe(r):
    def s(x):
        return "".join(map(chr, x))

    def rule(q):
        comps = ", ".join("[" + ", ".join(f"T {s(y[1])}" if y[0] == "T" else f"Var {y[1]} {y[2]}" for y in c) + "]" for c in q["comp"])
        return f"{s(q['head'])} -> [{comps}] ({', '.join(map(s, q['tail']))})"
    return {k: v for k, v in r.items() if k in ("kind", "given", "sid", "sep")}, [f"{a}: {rule(q)}" for a, q in r.get("tree", [])]
