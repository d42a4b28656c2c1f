"""Sessions of the command line: a grammar, input files, options."""
import csparse

POOLS = [["a", "b", "c"], ["der", "Mann", "schläft"], ["'s", "``", "-LRB-"], ["a/b", "/", "x/"], ["日本", "–", "ß"], ["1", "22", "333"], ["#500", "#BOS", "--"]]
MAXC, MAXT = 25, 150


def leads(g):
    """tree-stack recognition ends: no component begins with itself"""
    st = {(r["head"], j) for r in g["rules"] for j in range(len(r["comp"]))}
    to = {s: set() for s in st}
    for r in g["rules"]:
        for j, u in enumerate(r["comp"]):
            if u[0][0] == "V":
                to[(r["head"], j)].add((r["tail"][u[0][1]], u[0][2]))
    done = set()
    while True:
        new = {s for s in st - done if to[s] <= done}
        if not new:
            return done == st
        done |= new


def ordered(g):
    for r in g["rules"]:
        last = {}
        for x in (x for u in r["comp"] for x in u):
            if x[0] == "V":
                if x[2] < last.get(x[1], -1):
                    return False
                last[x[1]] = x[2]
    return True


def discodop(rng, g, mode):
    """the grammar as a disco-dop grammar with counts, or None"""
    if any(len(r["tail"]) > 2 for r in g["rules"]) or not ordered(g):
        return None
    rules = [dict(r, head=r["head"].replace("S", "ROOT"), tail=[x.replace("S", "ROOT") for x in r["tail"]]) for r in g["rules"]]
    if any(any(x not in [q["head"] for q in rules] for x in r["tail"]) for r in rules):
        return None
    used = lambda r: sorted((x[1], x[2]) for u in r["comp"] for x in u)
    fan = {r["head"]: len(r["comp"]) for r in rules}
    if any(r["tail"] and used(r) != [(i, j) for i, b in enumerate(r["tail"]) for j in range(fan[b])] for r in rules):
        return None
    pre = []
    if mode == "default":
        for r in rules:
            if not r["tail"]:
                x = r["comp"][0][0][1]
                r.update(tail=["T%d" % x], comp=[[["V", 0, 0]]])
                pre.append(x)
        if not pre:
            return None
    by, counts = {}, [None] * len(rules)
    for k, r in enumerate(rules):
        by.setdefault(r["head"], []).append(k)
    for ks in by.values():
        ds = [0]
        while len(ds) < len(ks):
            d = ds.pop(rng.randrange(len(ds)))
            ds += [d + 1, d + 1]
        rng.shuffle(ds)
        f, top = rng.choice([1, 1, 3, 5, 10]), max(ds) + rng.choice([0, 0, 1])
        for k, d in zip(ks, ds):
            rules[k]["e"] = 12 * d
            counts[k] = str(f << (top - d)) if rng.random() < 0.6 else "%d/%d" % (f << (top - d + 1), 2)
    for x in sorted(set(pre)):
        rules.append(dict(head="T%d" % x, tail=[], comp=[[["T", x]]], e=0))
        counts.append("1")
    g2 = dict(rules=rules, init="ROOT")
    return (g2, counts, pre) if csparse.acyclic(g2) else None


def cases(rng, n):
    out = []
    while len(out) < n:
        g, letters = csparse.grammar(rng)
        if not g["rules"] or not csparse.acyclic(g):
            continue
        pool = list(rng.choice(POOLS))
        rng.shuffle(pool)
        names = pool + ["zz"]
        disco, counts = "", []
        if rng.random() < 0.5:
            disco = rng.choice(["lexer", "default"])
            d = discodop(rng, g, disco)
            if d is None:
                continue
            g, counts, _ = d
            if disco == "default":
                names = ["T1", "T2", "T3", "zz"]
        single = any(r["head"] == g["init"] and not r["tail"] for r in g["rules"])

        def lines():
            ls, ids = [], rng.sample(range(0, 100000), 8)
            for k in range(rng.choice([0, 1, 2, 4])):
                w = csparse.sample(rng, g, 6) if rng.random() < 0.75 else [rng.choice(letters + [4] * (rng.random() < 0.2)) for _ in range(rng.randint(0, 5))]
                if w is None or (len(w) == 1 and single):
                    continue
                top, table = csparse.counter(csparse.masked(g, w), tuple(w))
                if top(10 ** 6) > MAXC or table(10 ** 6) > MAXT:
                    continue
                ls.append(dict(id=ids[k], word=w, toks=[rng.choice(["t", "ü", "a/b", "x", "5", "„"]) for _ in w], blank=rng.choice([" ", " ", "  ", "\t"])))
            return ls

        steps = []
        for _ in range(rng.choice([1, 2])):
            steps.append(dict(op="extract", said=rng.random() < 0.3, est=rng.choice([-1, -1, 0, 2, 5]), zip=rng.random() < 0.3, stdin=rng.random() < 0.5))
            for _ in range(rng.choice([1, 2, 3])):
                ls = lines()
                ids = rng.random() < 0.3
                steps.append(dict(op="parse", k=rng.choice([-1, -1, 0, 1, 2, 3, 4]), beam=rng.choice([-1, -1, -1, 1, 3, 1000]), delta=-1 if disco else rng.choice([-1, -1, -1, -1, 13, 200]),
                                  cand=rng.choice([-1, -1, 0, 1, 2, 10]), fall=rng.random() < 0.5, debug=rng.random() < 0.25, pos=rng.random() < 0.3 and not any("/" in x for x in names), ids=ids,
                                  open=rng.random() < 0.3 and bool(ls) and (ids or bool(ls[-1]["word"])), lines=ls))
            if leads(g) and ordered(g):
                ls = lines()
                steps.append(dict(op="mcfg", k=rng.choice([-1, 0, 1, 2, 4]), beam=rng.choice([-1, -1, 100000]), open=rng.random() < 0.3 and bool(ls) and bool(ls[-1]["word"]), lines=ls))
        out.append(dict(rules=g["rules"], init=g["init"], names=names, steps=steps, disco=disco, counts=counts, unit=12 if disco else 1))
    return out
