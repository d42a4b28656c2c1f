"""C06: Gorn trees."""

OPS = ["insert", "insert", "insert", "remove", "get", "modify", "entry", "append", "split", "swap", "addall", "addallit",
       "clear", "clone", "collect", "cloned"]


def random_cases(rng, n, maxlen, shapes=((2, 2), (3, 3), (12, 2), (300, 1)), sizes=(0, 2, 5)):
    out = []
    for _ in range(n):
        b, d = rng.choice(shapes)
        addr = lambda: [rng.randint(0, b) for _ in range(rng.randint(0, d))]
        tree = lambda: [[addr(), rng.randint(0, 9)] for _ in range(rng.choice(sizes))]
        ops = []
        for _ in range(rng.randint(1, maxlen)):
            o = rng.choice(OPS)
            if o == "clear" and rng.random() < 0.8:
                o = "insert"
            ops.append(dict(op=o, k=addr(), v=rng.randint(0, 9)))
        out.append(dict(a=tree(), b=tree(), ops=ops))
    return out


def run(ck):
    ck.model_check("GornTreeMC", "GornTreeMC_thorough.cfg" if ck.thorough else "GornTreeMC.cfg", min_states=100)
    gen = ck.generate("GornTreeGen", env=dict(GEN_N=ck.n(2, 3)))
    ck.conform("tree-all-scripts", "core", "gorn", "GornTreeTrace", gen, batch=40000)
    ck.conform("tree-random", "core", "gorn", "GornTreeTrace", random_cases(ck.rng, ck.n(1500, 20000), 20),
               nontrivial=lambda r: any(e.get("len", 0) > 2 for e in r["ev"]))
    ck.conform("tree-big", "core", "gorn", "GornTreeTrace", random_cases(ck.rng, ck.n(60, 600), 40, ((1, 20), (5, 6), (1000000000, 3), (100, 2)), (0, 10, 60)),
               nontrivial=lambda r: any(e.get("len", 0) > 8 for e in r["ev"]))
