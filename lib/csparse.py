"""Random LCFRS in normal form, words, and parsing steps."""
from functools import lru_cache
from math import prod


def grammar(rng):
    nts = ["S", "A", "B", "C", "D"][:rng.randint(1, 5)]
    fan = {a: rng.choice([1, 1, 2, 2, 3]) for a in nts}
    fan["S"] = 1
    letters = [1, 2, 3][:rng.randint(1, 3)]
    seen, rules = set(), []

    def add(h, tail, comp):
        key = repr((h, tail, comp))
        if key not in seen:
            seen.add(key)
            e = rng.choice([0, 12, 12, 24, 36, 48, 60, 120]) if rng.random() < 0.9 else 12 * rng.randint(0, 40)
            rules.append(dict(head=h, tail=tail, comp=comp, e=e))

    for a in nts:
        if fan[a] == 1:
            for t in letters:
                if rng.random() < 0.6:
                    add(a, [], [[["T", t]]])
    ones = [a for a in nts if fan[a] == 1]
    for _ in range(rng.randint(1, 9)):
        h = rng.choice(nts)
        for _ in range(8):
            tail = [rng.choice(nts) for _ in range(rng.choice([1, 1, 2, 2, 2, 3]))]
            vs = [["V", i, j] for i, b in enumerate(tail) for j in range(fan[b])]
            if len(vs) >= fan[h] and len(vs) <= 5:
                break
        else:
            continue
        if rng.random() < 0.7:
            rng.shuffle(vs)
        cuts = sorted(rng.sample(range(1, len(vs)), fan[h] - 1))
        add(h, tail, [vs[x:y] for x, y in zip([0] + cuts, cuts + [len(vs)])])
    # every nonterminal needs a rule
    heads = lambda: {r["head"] for r in rules}
    for a in nts:
        if a not in heads():
            if fan[a] == 1:
                add(a, [], [[["T", rng.choice(letters)]]])
            else:
                for b in ones:
                    add(a, [b] * fan[a], [[["V", j, 0]] for j in range(fan[a])])
                    break
    rng.shuffle(rules)
    return dict(rules=rules, init="S"), letters


def acyclic(g):
    st = {(r["head"], j) for r in g["rules"] for j in range(len(r["comp"]))}
    to = {s: set() for s in st}
    for r in g["rules"]:
        for j, u in enumerate(r["comp"]):
            if len(u) == 1 and u[0][0] == "V":
                to[(r["head"], j)].add((r["tail"][u[0][1]], u[0][2]))
    done = set()
    while True:
        new = {s for s in st - done if to[s] <= done}
        if not new:
            return done == st
        done |= new


def cycles_cost(g):
    """every chain that goes round costs something"""
    free = dict(g, rules=[r for r in g["rules"] if r["e"] == 0])
    heads = {r["head"] for r in free["rules"]}
    free["rules"] = [dict(r, tail=r["tail"], comp=[[x for x in u] if not (len(u) == 1 and u[0][0] == "V" and r["tail"][u[0][1]] not in heads) else [["T", 0]] for u in r["comp"]]) for r in free["rules"]]
    st = {(r["head"], j) for r in free["rules"] for j in range(len(r["comp"]))}
    for r in free["rules"]:
        for u in r["comp"]:
            if len(u) == 1 and u[0][0] == "V" and (r["tail"][u[0][1]], u[0][2]) not in st:
                u[0] = ["T", 0]
    return acyclic(free)


def masked(g, w):
    prod_, rules = set(), []
    while True:
        rules = [r for r in g["rules"] if (set(r["tail"]) <= prod_ if r["tail"] else r["comp"][0][0][1] in w)]
        new = {r["head"] for r in rules} - prod_
        if not new:
            break
        prod_ |= new
    seen, todo = set(), [g["init"]]
    while todo:
        a = todo.pop()
        if a not in seen:
            seen.add(a)
            todo += [b for r in rules if r["head"] == a for b in r["tail"]]
    return dict(g, rules=[r for r in rules if r["head"] in seen])


def counter(g, w):
    """n(m): the number of candidates for w with an exponent of at most m"""
    @lru_cache(None)
    def exps(a, j, i, k, m):
        """exponents with their numbers"""
        out = {}
        for r in g["rules"]:
            if r["head"] != a or j >= len(r["comp"]):
                continue
            f = r["e"] // len(r["comp"])
            u = r["comp"][j]
            if f > m:
                continue
            if u[0][0] == "T":
                if k == i + 1 and w[i] == u[0][1]:
                    out[f] = out.get(f, 0) + 1
            else:
                for e, n in seq(tuple((r["tail"][x[1]], x[2]) for x in u), i, k, m - f):
                    out[e + f] = out.get(e + f, 0) + n
        return tuple(sorted(out.items()))

    @lru_cache(None)
    def seq(qs, i, k, m):
        if len(qs) == 1:
            return exps(qs[0][0], qs[0][1], i, k, m)
        out = {}
        for mid in range(i + 1, k - len(qs) + 2):
            for e, n in exps(qs[0][0], qs[0][1], i, mid, m):
                for e2, n2 in seq(qs[1:], mid, k, m - e):
                    out[e + e2] = out.get(e + e2, 0) + n * n2
        return tuple(sorted(out.items()))

    states = {(r["head"], j) for r in g["rules"] for j in range(len(r["comp"]))}

    def top(m):
        return sum(n for _, n in exps(g["init"], 0, 0, len(w), m)) if w else 0

    def table(m):
        return sum(n for k in range(1, len(w) + 1) for i in range(k) for a, j in states for _, n in exps(a, j, i, k, m))

    return top, table


def number(g, w):
    """the number of candidates for w; None if a chain that goes round takes part in one of them"""
    inside = set()      # items (a, j, i, k)

    def bodies(i, k, a, j):
        for r in g["rules"]:
            if r["head"] == a and j < len(r["comp"]):
                u = r["comp"][j]
                if u[0][0] == "T":
                    if k == i + 1 and w[i] == u[0][1]:
                        yield []
                else:
                    qs = [(r["tail"][x[1]], x[2]) for x in u]

                    def go(p, at):
                        if p == len(qs) - 1:
                            if (qs[p][0], qs[p][1], at, k) in inside:
                                yield [(qs[p][0], qs[p][1], at, k)]
                            return
                        for mid in range(at + 1, k):
                            if (qs[p][0], qs[p][1], at, mid) in inside:
                                for rest in go(p + 1, mid):
                                    yield [(qs[p][0], qs[p][1], at, mid)] + rest
                    yield from go(0, i)

    states = {(r["head"], j) for r in g["rules"] for j in range(len(r["comp"]))}
    for n in range(1, len(w) + 1):
        for i in range(len(w) - n + 1):
            more = True
            while more:
                more = False
                for a, j in states:
                    if (a, j, i, i + n) not in inside and any(True for _ in bodies(i, i + n, a, j)):
                        inside.add((a, j, i, i + n))
                        more = True
    todo, seen, to = [(g["init"], 0, 0, len(w))], set(), {}
    while todo:
        x = todo.pop()
        if x in seen or x not in inside:
            continue
        seen.add(x)
        to[x] = {y for b in bodies(x[2], x[3], x[0], x[1]) for y in b}
        todo += to[x]
    done = {}
    while True:
        new = {x for x in seen - done.keys() if to[x] <= done.keys()}
        if not new:
            return done.get((g["init"], 0, 0, len(w)), 0) if len(done) == len(seen) else None
        for x in new:
            done[x] = sum(prod(done[y] for y in b) for b in bodies(x[2], x[3], x[0], x[1]))


def sample(rng, g, maxlen):
    """a word from a random derivation, or None"""
    def go(a, depth):
        rs = [r for r in g["rules"] if r["head"] == a]
        if depth <= 0:
            rs = [r for r in rs if not r["tail"]] or rs
        r = rng.choice(rs)
        if depth < -6:
            raise RecursionError
        kids = [go(b, depth - 1) for b in r["tail"]]
        out = [[] for _ in r["comp"]]
        for j, u in enumerate(r["comp"]):
            for x in u:
                out[j] += [x[1]] if x[0] == "T" else kids[x[1]][x[2]]
        return out

    for _ in range(6):
        try:
            w = go(g["init"], rng.randint(1, 3))[0]
        except RecursionError:
            continue
        if len(w) <= maxlen:
            return w
    return None


def step(op, w, lim=1000, cand=-1, beam=-1, delta=-1, m=-1, all=False):
    return dict(op=op, word=w, lim=lim if op == "parse" else 0, cand=cand, beam=beam, delta=delta, m=m, all=all)


MAXC, MAXT, MAXM = 60, 300, 240


def bound(rng, g, w):
    """(m, all, number) for a grammar with chains that go round; None: too many"""
    g = masked(g, w)
    n, table = counter(g, tuple(w))
    want = rng.randint(1, 10)
    total = number(g, w)
    if total is None:
        m = 12
        while m < MAXM and n(m) < want:
            m += 12
        al = False
        if n(m) < want:
            return None
    else:
        m, al = MAXM, True
        if total != n(m):
            return None
    if n(m) > MAXC or table(m) > MAXT:
        return None
    return m, al, want


def cases(rng, n, limits):
    out = []
    while len(out) < n:
        g, letters = grammar(rng)
        if not limits and not g["rules"]:
            continue
        acyc = acyclic(g)
        if not acyc and not cycles_cost(g):
            continue
        words = []
        for _ in range(rng.randint(2, 5)):
            w = sample(rng, g, 7) if rng.random() < 0.75 else [rng.choice(letters + [9] * (rng.random() < 0.2)) for _ in range(rng.randint(0, 5))]
            if w is not None:
                words.append(w)
        steps = []
        for w in words:
            if acyc:
                top, table = counter(masked(g, w), tuple(w))
                tot = top(10 ** 6)
                if tot > MAXC or table(10 ** 6) > MAXT:
                    continue
                kw = lambda: dict(cand=rng.choice([-1, -1, 0, 1, 2, tot, tot + 1, rng.randint(0, tot + 2)])) if limits else {}
            else:
                b = bound(rng, g, w)
                if b is None:
                    continue
                m, al, want = b
                kw = lambda: dict(cand=rng.randint(0, want) if limits else want, m=m, all=al)
            for _ in range(rng.randint(1, 5) if limits else 1):
                k = kw()
                if limits and rng.random() < 0.5:
                    k["beam"] = rng.choice([0, 1, 2, 3, 5, 10, 1000])
                if limits and rng.random() < 0.3:
                    k["delta"] = rng.choice([0, 1, 13, 25, 50, 200])
                steps.append(step("parse", w, lim=rng.choice([1000, 1000, 1, 2, 5]), **k))
                if rng.random() < 0.5:
                    steps.append(step("debug", w, **k))
        if not steps:
            continue
        for _ in range(rng.choice([0, 0, 1])):
            steps.insert(rng.randint(0, len(steps)), dict(op="reload"))
        out.append(dict(rules=g["rules"], init=g["init"], est=rng.choice([0, 0, 1, 2, 3, 5, 9]), steps=steps))
    return out


def long(rng, lengths):
    """a grammar with few derivations and long words"""
    out = []
    V, T = lambda i, j: ["V", i, j], lambda t: ["T", t]
    r = lambda h, tail, comp, e: dict(head=h, tail=tail, comp=comp, e=e)
    lin = [r("S", ["A", "S"], [[V(0, 0), V(1, 0)]], 12), r("S", [], [[T(2)]], 0), r("A", [], [[T(1)]], 0), r("A", [], [[T(3)]], 12)]
    for n in lengths:
        w = [rng.choice([1, 3]) for _ in range(n - 1)] + [2]
        st = [step("parse", w), step("parse", w[:-1] + [1]), step("debug", w, beam=5)]
        rng.shuffle(st)
        if n > 255:
            st = [step("parse", w)]
        out.append(dict(rules=lin, init="S", est=rng.choice([0, 3]), steps=st))
    return out
