"""C01: agendas."""


def random_cases(rng, n, maxlen):
    out = []
    for _ in range(n):
        kind = rng.choice(["lifo", "fifo", "heap", "limited", "limited", "beam", "beam"])
        via = {"lifo": ["trait"], "fifo": ["trait"], "heap": ["trait", "weighted"]}.get(kind, ["trait", "weighted", "raw"])
        mul = rng.choice(["add", "mul"])
        lo, hi = rng.choice([(0, 3), (0, 40), (-50, 50) if mul == "add" else (0, 60), (-1000, 1000) if mul == "add" else (0, 500)])
        beta = rng.choice([-1, 0, 1, -3, -10, -100, 2]) if mul == "add" else rng.choice([0, 1, 1, 2, 3])
        cap = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 2000000000])
        init = []
        if kind in ("lifo", "fifo", "heap") and rng.random() < 0.5:
            init = [[i, rng.randint(lo, hi)] for i in range(rng.randint(0, 6))]
        ops, held = [], 0
        bias = rng.choice([0.25, 0.45, 0.6])
        for _ in range(rng.randint(1, maxlen)):
            r = rng.random()
            if r < bias:
                ops.append(dict(op="pop"))
            elif r < 0.9:
                ops.append(dict(op="push", p=rng.randint(lo, hi)))
            elif r < 0.96:
                ops.append(dict(op="extend", ps=[rng.randint(lo, hi) for _ in range(rng.randint(0, 4))]))
            elif r < 0.97:
                ops.append(dict(op="clear"))
            else:
                ops.append(dict(op="clone"))
        out.append(dict(kind=kind, via=rng.choice(via), cap=cap, beta=beta, mul=mul, init=init, ops=ops))
    return out


def big_cases(rng, n):
    """Hundreds of items with distinct priorities."""
    out = []
    for _ in range(n):
        kind = rng.choice(["lifo", "fifo", "heap", "limited", "limited", "beam"])
        via = {"lifo": ["trait"], "fifo": ["trait"], "heap": ["trait", "weighted"]}.get(kind, ["trait", "weighted", "raw"])
        mul = "add"
        ps = rng.sample(range(-100000, 100000), 700)
        if rng.random() < 0.3:
            ps.sort(reverse=rng.random() < 0.5)
        k = rng.choice([40, 150, 300])
        init = [[i, ps.pop()] for i in range(rng.choice([0, 5, 100]))] if kind in ("lifo", "fifo", "heap") else []
        ops = []
        bias = rng.choice([0, 0.2, 0.45])
        for _ in range(k):
            r = rng.random()
            if r < bias:
                ops.append(dict(op="pop"))
            elif r < 0.99:
                ops.append(dict(op="push", p=ps.pop()))
            elif kind != "limited":
                ops.append(dict(op="extend", ps=[ps.pop() for _ in range(rng.choice([1, 20]))]))
        if rng.random() < 0.5:
            ops += [dict(op="pop")] * rng.choice([20, 200])
        out.append(dict(kind=kind, via=rng.choice(via), cap=rng.choice([16, 33, 64, 100, 257, 1000000000, 2000000000]), beta=-rng.choice([1000, 50000, 300000]), mul=mul, init=init, ops=ops))
    return out


def nontrivial(r):
    return any(e.get("op") == "pop" and e.get("res") for e in r["ev"])


def run(ck):
    ck.assumptions += ["extend into a limited agenda is followed by at most the ties of the model's nondeterminism"]
    ck.model_check("AgendaMC", "AgendaMC_thorough.cfg" if ck.thorough else "AgendaMC.cfg", min_states=1000)
    gen = ck.generate("AgendaGen", env=dict(GEN_N=ck.n(4, 5)))
    ck.conform("agenda-all-scripts", "core", "agenda", "AgendaTrace", gen, nontrivial=nontrivial, batch=40000)
    ck.conform("agenda-random", "core", "agenda", "AgendaTrace", random_cases(ck.rng, ck.n(1500, 15000), 60),
               nontrivial=nontrivial)
    ck.conform("agenda-big", "core", "agenda", "AgendaTrace", big_cases(ck.rng, ck.n(60, 600)), nontrivial=nontrivial)
