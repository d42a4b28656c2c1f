"""Automata as data, and a plain search to keep cases inside the domain (finite or cut searches)."""
import heapq
from fractions import Fraction


def scaled(w):
    return Fraction(w[0], 1 << w[1])


def ends(st, suf):
    return len(suf) <= len(st) and list(st[len(st) - len(suf):]) == list(suf)


def succ(kind, i, st):
    if kind == "pda":
        old, new = i[1], i[2]
        if ends(st, list(reversed(old))):
            return [tuple(st[:len(st) - len(old)]) + tuple(new)]
        return []
    if kind == "fsa":
        return [i[2]] if st == i[1] else []
    t, at = st
    d = dict(t)
    if i[0] == "Up":
        b = at + (i[1],)
        if d[at] != i[2] or b not in d or d[b] != i[3]:
            return []
        d[b] = i[4]
        at = b
    elif i[0] == "Push":
        b = at + (i[1],)
        if d[at] != i[2] or b in d:
            return []
        d[b] = i[3]
        at = b
    else:
        if d[at] != i[1] or not at or d[at[:-1]] != i[2]:
            return []
        at = at[:-1]
        d[at] = i[3]
    return [(tuple(sorted(d.items())), at)]


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def merged(tr):
    m = {}
    for w, wt, i in tr:
        k = (tup(w), tup(i))
        a, b = m.get(k, (0, 0)), wt
        n = max(a[1], b[1])
        m[k] = ((a[0] << (n - a[1])) + (b[0] << (n - b[1])), n)
    return [(k[0], wt, k[1]) for k, wt in m.items()]


class Aut:
    """kind, transitions (word, (n, k), instruction), initial storage, final states"""

    def __init__(self, kind, tr, init, fin=()):
        self.kind, self.init, self.fin = kind, init, set(fin)
        self.tr = merged(tr) if kind == "pda" else [(tup(w), tup(wt), tup(i)) for w, wt, i in tr]

    def start(self):
        return (tup(self.init) if self.kind == "pda" else self.init if self.kind == "fsa" else ((((), self.init),), ()))

    def terminal(self, st, n):
        return len(st) == 1 if self.kind == "pda" else st in self.fin if self.kind == "fsa" else st[1] == () and n > 0

    def light(self):
        return all(w[0] <= 1 << w[1] for _, w, _ in self.tr)


def search(a, word, cap=250, maxk=24, maxn=1 << 24, depth=30, allow_cut=True, runs=None):
    """None if the case is not wanted; else (number of runs to ask for, exhausted?, most items pending)."""
    n, heap = 0, [(-Fraction(1), 0, 0, a.start(), (1, 0), ())]
    res, pops, wide, mk = [], 0, 1, 0
    while heap:
        if pops >= cap:
            break
        wide = max(wide, len(heap))
        nw, _, p, st, wt, run = heapq.heappop(heap)
        d = len(run)
        pops += 1
        mk = max(mk, wt[1])
        if wt[1] > maxk + 10 or wt[0] > maxn or wt[0] > 64 << wt[1] or d > depth:
            return None
        if p == len(word) and a.terminal(st, d):
            res.append(-nw)
            if runs is not None:
                runs.append(run)
        if a.kind == "pda" and not st:
            return None
        for at, (w, tw, i) in enumerate(a.tr):
            if tuple(word[p:p + len(w)]) == tuple(w):
                for st1 in succ(a.kind, i, st):
                    if a.kind == "pda" and not st1:
                        return None
                    n += 1
                    w1 = (wt[0] * tw[0], wt[1] + tw[1])
                    heapq.heappush(heap, (-scaled(w1), n, p + len(w), st1, w1, run + (at,)))
    if not heap:
        return len(res), True, wide, mk <= maxk
    if not allow_cut or not a.light():
        return None
    top = -heap[0][0]
    top = max([top] + [x for x in res if x.denominator > 1 << maxk])
    res = [x for x in res if x > top]
    return (len(res), False, wide, mk <= maxk) if res else None


def approx(s, a):
    """the approximation of an automaton; s: ["tts"] or ["rlb", {symbol: symbol}]"""
    if s[0] == "tts":
        def f(i):
            return ["R", [i[2]], [i[2], i[4]]] if i[0] == "Up" else ["R", [i[2]], [i[2], i[3]]] if i[0] == "Push" else ["R", [i[1], i[2]], [i[3]]]
        init = [a.init]
    else:
        def f(i):
            return ["R", [s[1][x] for x in i[1]], [s[1][x] for x in i[2]]]
        init = [s[1][x] for x in a.init]
    b = Aut("pda", [(w, wt, f(i)) for w, wt, i in a.tr], init)
    b.image = lambda t: (t[0], tup(f(t[2])))
    return b


def of_cfg(g):
    ts = sorted({x[1] for r in g["rules"] for x in r["comp"] if x[0] == "T"})
    tr = [([], r["w"], ["R", [("N", r["head"])], [tuple(x) for x in reversed(r["comp"])]]) for r in g["rules"]]
    tr += [([t], (1, 0), ["R", [("T", t)], []]) for t in ts]
    tr += [([], (1, 0), ["R", [("I",)], [("N", i)]]) for i in g["init"]]
    return Aut("pda", tr, [("@",), ("I",)])


def split(c):
    vs, u = [], []
    for x in c:
        if x[0] == "T":
            u.append(x[1])
        else:
            vs.append((u, x[1], x[2]))
            u = []
    return vs, u


def of_pmcfg(g):
    rs = g["rules"]
    sp = [[split(c) for c in r["comp"]] for r in rs]
    end = lambda q, j: ("P", q + 1, j, len(sp[q][j][0]))
    tr = []
    for q, r in enumerate(rs):
        if r["head"] in g["init"]:
            tr.append(([], r["w"], ["Push", 0, ("I",), ("P", q + 1, 0, 0)]))
            tr.append((sp[q][0][1], (1, 0), ["Down", end(q, 0), ("I",), ("@",)]))
        prev = {}
        for j, c in enumerate(r["comp"]):
            for k, (u, i, j1) in enumerate(sp[q][j][0]):
                here = ("P", q + 1, j, k)
                for q1, r1 in enumerate(rs):
                    if r1["head"] != r["tail"][i]:
                        continue
                    if i in prev:
                        tr.append((u, (1, 0), ["Up", i, here, end(q1, prev[i]), ("P", q1 + 1, j1, 0)]))
                    else:
                        tr.append((u, r1["w"], ["Push", i, here, ("P", q1 + 1, j1, 0)]))
                    tr.append((sp[q1][j1][1], (1, 0), ["Down", end(q1, j1), here, ("P", q + 1, j, k + 1)]))
                prev[i] = j1
    return Aut("tsa", tr, ("I",))


# ------------------------------------------------------------------------------------------------ random cases
WEIGHTS = [(1, 0), (1, 1), (1, 1), (1, 2), (3, 2)]
FINE = [(1, 1), (3, 2), (5, 3), (7, 3), (3, 3), (1, 2), (15, 4), (1, 0)]


def rand_pda(rng, ws):
    syms = list(range(1, rng.choice([2, 3, 4]) + 1))
    letters = rng.choice([[1], [1, 2], [1, 2, 3]])
    tr = []
    for _ in range(rng.randint(2, 9)):
        old = [rng.choice(syms)] if rng.random() < 0.7 else [rng.choice(syms) for _ in range(2)]
        if rng.random() < 0.12:
            old.append(0)
        new = [rng.choice(syms) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3]))]
        if old[-1] == 0:
            new = [0] + new
        word = [rng.choice(letters) for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))]
        tr.append((word, rng.choice(ws), ["R", old, new]))
    if rng.random() < 0.3:
        w, _, i = rng.choice(tr)
        tr.append((w, rng.choice(ws), i))
    init = [0] + [rng.choice(syms) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    return Aut("pda", tr, init), tr, letters


def rand_tsa(rng, ws):
    if rng.random() < 0.6:
        # the automaton of a grammar, its symbols numbered and some of them made equal
        b, _, letters = rand_pmcfg(rng, ws)
        num = {}
        for _, _, i in b.tr:
            for x in i:
                if isinstance(x, tuple) and x not in num:
                    num[x] = rng.randrange(len(num)) if num and rng.random() < 0.15 else len(num)
        num.setdefault(("I",), len(num))
        tr = [(w, x, [num[y] if isinstance(y, tuple) else y for y in i]) for w, x, i in b.tr]
        if tr:
            rng.shuffle(tr)
            init = num[("I",)]
            return Aut("tsa", tr, init), tr, letters
    vals = list(range(rng.choice([2, 3, 4])))
    letters = rng.choice([[1], [1, 2]])
    v, n = lambda: rng.choice(vals), lambda: rng.choice([0, 0, 1])
    tr = []
    for _ in range(rng.randint(3, 11)):
        k = rng.choice(["Push", "Push", "Down", "Down", "Down", "Up"])
        i = ["Push", n(), v(), v()] if k == "Push" else ["Down", v(), v(), v()] if k == "Down" else ["Up", n(), v(), v(), v()]
        tr.append(([rng.choice(letters) for _ in range(rng.choice([0, 0, 1, 1, 2]))], rng.choice(ws), i))
    if rng.random() < 0.3:
        w, x, i = rng.choice(tr)
        tr.append((w, x if rng.random() < 0.5 else rng.choice(ws), i))
    init = v()
    return Aut("tsa", tr, init), tr, letters


def rand_fsa(rng, ws):
    qs = list(range(rng.choice([1, 2, 3, 5])))
    letters = rng.choice([[1], [1, 2], [1, 2, 3]])
    tr = []
    for _ in range(rng.randint(1, 10)):
        tr.append(([rng.choice(letters) for _ in range(rng.choice([0, 1, 1, 1, 2]))], rng.choice(ws), ["F", rng.choice(qs), rng.choice(qs)]))
    if rng.random() < 0.3:
        w, x, i = rng.choice(tr)
        tr.append((w, x if rng.random() < 0.5 else rng.choice(ws), i))
    fin = [q for q in qs + [77] if rng.random() < 0.5]
    init = rng.choice(qs)
    return Aut("fsa", tr, init, fin), tr, letters


def rand_cfg(rng, ws):
    nts = list(range(1, rng.choice([1, 2, 3]) + 1))
    letters = rng.choice([[1], [1, 2], [1, 2, 3]])
    rules = []
    for _ in range(rng.randint(2, 7)):
        h, comp, seen = rng.choice(nts), [], False
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            # no left recursion: before a letter only later nonterminals
            ok = nts if seen else [x for x in nts if x > h]
            if rng.random() < 0.5 and ok:
                comp.append(["N", rng.choice(ok + ([9] if rng.random() < 0.03 else []))])
            else:
                comp.append(["T", rng.choice(letters)])
                seen = True
        rules.append(dict(head=h, comp=comp, w=rng.choice(ws)))
    if rng.random() < 0.25:
        r = rng.choice(rules)
        rules.append(dict(r, w=rng.choice(ws)))
    init = [1] if rng.random() < 0.7 else rng.sample(nts, rng.randint(1, len(nts)))
    if rng.random() < 0.05:
        init = init + [init[0]]
    g = dict(rules=rules, init=init)
    return of_cfg(g), g, letters


def rand_pmcfg(rng, ws):
    nts = list(range(1, rng.choice([1, 2, 3, 4]) + 1))
    fan = {n: rng.choice([1, 1, 2, 2, 3]) for n in nts}
    fan[1] = 1
    letters = rng.choice([[1], [1, 2], [1, 2, 3]])
    rules = []
    for _ in range(rng.randint(2, 7)):
        h = rng.choice(nts)
        tail = [rng.choice(nts) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        # the children's components, each child's in order
        seqs = [[(i, j) for j in range(fan[n])] for i, n in enumerate(tail)]
        order = []
        while any(seqs):
            s = rng.choice([x for x in seqs if x])
            order.append(["V", *s.pop(0)])
        comp = [[] for _ in range(fan[h])]
        cuts = sorted(rng.randint(0, len(order)) for _ in range(fan[h] - 1))
        parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [len(order)])]
        seen = False
        for j, part in enumerate(parts):
            for x in part:
                if not seen and tail[x[1]] <= h and x[2] == 0:
                    comp[j].append(["T", rng.choice(letters)])
                    seen = True
                elif rng.random() < 0.3:
                    comp[j].append(["T", rng.choice(letters)])
                    seen = True
                comp[j].append(x)
            if part and rng.random() < 0.1:
                comp[j].append(["T", rng.choice(letters)])
            if rng.random() < (0.3 if part else 0.6):
                comp[j].append(["T", rng.choice(letters)])
                seen = True
        # numbers of the children at random
        perm = list(range(len(tail)))
        rng.shuffle(perm)
        comp = [[["V", perm[x[1]], x[2]] if x[0] == "V" else x for x in c] for c in comp]
        tail2 = [None] * len(tail)
        for a, b in enumerate(perm):
            tail2[b] = tail[a]
        if rng.random() < 0.04 and tail2:
            tail2[rng.randrange(len(tail2))] = 9   # a nonterminal without rules
        r = dict(head=h, tail=tail2, comp=comp, w=rng.choice(ws))
        if all((q["head"], q["tail"], q["comp"]) != (r["head"], r["tail"], r["comp"]) for q in rules):
            rules.append(r)
    init = [1] if rng.random() < 0.8 else sorted({1} | {n for n in nts if fan[n] == 1 and rng.random() < 0.6})
    g = dict(rules=rules, init=init)
    return of_pmcfg(g), g, letters


def walk(rng, a, steps=14):
    """a word read along some transitions, preferably an accepted one"""
    st, word, acc = a.start(), [], None
    for d in range(steps):
        if a.terminal(st, d) and (acc is None or rng.random() < 0.6):
            acc = list(word)
        opts = [(w, s1) for w, _, i in a.tr for s1 in succ(a.kind, i, st) if not (a.kind == "pda" and not s1)]
        if not opts:
            break
        w, st = rng.choice(opts)
        word += list(w)
        if a.kind == "pda" and len(st) > 8 or len(word) > 7:
            break
    return acc if acc is not None else word[:5]


def words(rng, a, letters, n):
    out = [[]] if rng.random() < 0.5 else []
    for _ in range(n):
        w = walk(rng, a) if rng.random() < 0.75 else [rng.choice(letters) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.15 and w:
            w = list(w)
            w[rng.randrange(len(w))] = rng.choice(letters + [8])
        if list(w) not in out:
            out.append(list(w))
    return out


def lim(r):
    return r[0] + 3 if r[1] else r[0]


def rand_chain(rng, kind, a, g, n):
    """n strategies for an automaton, and the automata they give"""
    chain, auts = [], [a]
    for k in range(n):
        b = auts[-1]
        if k == 0 and kind in ("tsa", "pmcfg"):
            s = ["tts"]
            auts.append(approx(s, b))
        elif kind == "cfg":
            nts = sorted({r["head"] for r in g["rules"]} | {x[1] for r in g["rules"] for x in r["comp"] if x[0] == "N"} | set(g["init"]))
            cls = [[x, rng.choice([1, 1, 2])] for x in nts]
            s, m = ["nt", cls], dict(map(tuple, cls))
            f = _Map(lambda x: ("N", m[x[1]]) if x[0] == "N" else x)
            auts.append(approx(["rlb", f], b))
        elif kind == "pmcfg":
            nts = sorted({r["head"] for r in g["rules"]} | {x for r in g["rules"] for x in r["tail"]})
            cls = [[x, rng.choice([1, 1, 2])] for x in nts]
            m = dict(map(tuple, cls))
            s = ["pos", [[q + 1, m[r["head"]]] for q, r in enumerate(g["rules"])], cls]
            f = _Map(lambda x: ("P", m[g["rules"][x[1] - 1]["head"]], x[2], x[3]) if x[0] == "P" else x)
            auts.append(approx(["rlb", f], b))
        else:
            syms = sorted({x for _, _, i in b.tr for x in list(i[1]) + list(i[2])} | set(b.init))
            cls = [[x, x if x == 0 or rng.random() < 0.4 else rng.choice([1, 1, 2])] for x in syms]
            s = ["sym", cls]
            auts.append(approx(["rlb", dict(map(tuple, cls))], b))
        chain.append(s)
    return chain, auts


class _Map:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, x):
        return self.f(x)


MAKE = dict(pda=rand_pda, tsa=rand_tsa, fsa=rand_fsa, cfg=rand_cfg, pmcfg=rand_pmcfg)


def case(rng, kind, what="run", beams=False, n_chain=0, cut=True, cap=250):
    """one random case, or None"""
    ws = FINE if rng.random() < (0.6 if beams else 0.2) else WEIGHTS
    a, data, letters = MAKE[kind](rng, ws)
    g = data if kind in ("cfg", "pmcfg") else None
    chain, auts = rand_chain(rng, kind, a, g, n_chain)
    main = auts[1] if what == "approx" else a
    steps = []
    for w in words(rng, a if rng.random() < 0.8 else main, letters, rng.choice([1, 2, 3])):
        rs = [search(b, w, cap=cap, allow_cut=cut and what != "c2f") for b in ([main] if what == "run" else [main, a] if what == "approx" else auts)]
        if any(r is None for r in rs):
            continue
        r = rs[0]
        if what != "run":
            # every run of an approximation must not stand for too many
            big = 0
            for lo, hi in zip(auts, auts[1:]):
                got = []
                search(hi, w, cap=cap, runs=got)
                pre = {}
                for x in lo.tr:
                    k = hi.image(x)
                    pre[k] = pre.get(k, 0) + 1
                for run in got:
                    m = 1
                    for k in run:
                        m *= pre[hi.tr[k][0], hi.tr[k][2]]
                    big += m
            if big > 150 or not r[1] and what == "approx":
                continue
        step = dict(op="recog", word=w, lim=lim(r), cut=not r[1], beam=0, wide=False, exact=False)
        steps.append(step)
        if beams:
            wide = r[2] + max(1, len(main.tr))
            for b in sorted({1, rng.choice([2, 3, 5]), wide + 1, 1000}):
                if r[1]:
                    steps.append(dict(step, op="beam", beam=b, wide=b > wide, exact=r[3], lim=r[0] + 3))
    if not steps:
        return None
    for _ in range(rng.choice([0, 1, 2])):
        steps.append(dict(op="check", word=[], lim=0, cut=False, beam=0, wide=False, exact=False, pick=[rng.randint(0, 99) for _ in range(rng.choice([0, 1, 2, 4]))]))
    c = dict(kind=kind, what=what, words=steps, chain=chain)
    if g is not None:
        c["g"] = g
    else:
        c.update(trans=[[list(w), list(x), i] for w, x, i in data], init=a.init)
        if kind == "fsa":
            c["fin"] = sorted(a.fin)
    return c


def cases(rng, n, kinds, **kw):
    out = []
    tries = 0
    while len(out) < n and tries < 60 * n:
        tries += 1
        k = rng.choice(kinds)
        m = dict(kw)
        if kw.get("what") == "c2f":
            m["n_chain"] = rng.choice([1, 2, 2, 3] if k == "tsa" else [1, 2] if k in ("pda", "pmcfg") else [1])
        c = case(rng, k, **m)
        if c is not None:
            out.append(c)
    return out
