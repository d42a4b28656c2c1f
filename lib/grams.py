"""Random lists of PMCFG rules with plain names."""


def grammar(rng, nts=None, rules=None, maxfan=3, linear=True, delete=0.3, fault=0.0, undefined=0.0, onecomp=False, maxtail=3):
    n = nts or rng.choice([1, 2, 3, 4, 6, 12])
    names = [f"N{k}" for k in range(n)]
    rng.shuffle(names)
    fan = {x: 1 if onecomp else rng.choice([1, 1, 2, rng.randint(0, maxfan)]) for x in names}
    fan[names[0]] = 1
    words = rng.choice([["a"], ["a", "b"], ["a", "b", "c", "N0", "N1"]])
    out = []
    cnt = rules or rng.choice([n, 2 * n, 3 * n])
    for k in range(cnt):
        h = names[k] if k < n and rng.random() < 0.9 else rng.choice(names)
        f = fan[h]
        if fault and rng.random() < fault / 3:
            f = max(0, f + rng.choice([-1, 1]))
        tail = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 2, rng.randint(0, maxtail)]))] if f or rng.random() < 0.3 else []
        if undefined and rng.random() < undefined:
            tail.append("U")
        comps = [[] for _ in range(f)]
        if f:
            for i, x in enumerate(tail):
                for j in range(fan.get(x, 1)):
                    if rng.random() >= delete:
                        rng.choice(comps).append(["V", i, j])
                    if not linear and rng.random() < 0.15:
                        rng.choice(comps).append(["V", i, j])
            if rng.random() < 0.6:
                for c in comps:
                    rng.shuffle(c)
            for _ in range(rng.choice([0, 1, 1, 2])):
                c = rng.choice(comps)
                c.insert(rng.randint(0, len(c)), ["T", rng.choice(words)])
            if fault and rng.random() < fault:
                c = rng.choice(comps)
                x = rng.choice(["var", "dup", "drop", "big"])
                if x == "var":
                    c.insert(rng.randint(0, len(c)), ["V", rng.randint(0, len(tail)), rng.randint(0, maxfan)])
                elif x == "dup" and c:
                    c.append(rng.choice(c))
                elif x == "drop" and c:
                    c.pop()
                elif x == "big":
                    c.append(["V", rng.choice([17, 100, 65535, 1000000]), rng.choice([0, 7])])
        out.append(dict(head=h, tail=tail, comp=comps, w=rng.randint(1, 9)))
    rng.shuffle(out) if rng.random() < 0.5 else None
    return names, out


def describe(r):
    def rule(q):
        comps = ", ".join("[" + ", ".join(f"T {y[1]}" if y[0] == "T" else f"Var {y[1]} {y[2]}" for y in c) + "]" for c in q["comp"])
        return f"{q['head']} -> [{comps}] ({', '.join(map(str, q['tail']))}) # {q['w']}"
    return {k: r[k] for k in ("kind", "initial") if k in r}, [rule(q) for q in r["rules"]]
