"""C07: Dyck words."""


def balanced(rng, n, k, deep=False):
    w, st = [], []
    p = 0.5 if not deep else rng.choice([0.02, 0.2, 0.45])
    while len(w) + len(st) < n or st:
        if st and (rng.random() < p or len(w) + len(st) >= n):
            w.append(["c", st.pop()])
        else:
            x = rng.randint(1, k)
            st.append(x)
            w.append(["o", x])
    return w


def random_cases(rng, n, lengths=(4, 8, 14, 30), syms=(1, 2, 5, 100), deep=False):
    out = []
    for _ in range(n):
        words = []
        for _ in range(20):
            w = balanced(rng, rng.choice(lengths), rng.choice(syms), deep)
            r = rng.random()
            if w and r < 0.2:
                w[rng.randrange(len(w))][1] += 1
            elif w and r < 0.35:
                del w[rng.randrange(len(w))]
            elif w and r < 0.5:
                x = w[rng.randrange(len(w))]
                x[0] = "c" if x[0] == "o" else "o"
            elif len(w) > 1 and r < 0.6:
                i, j = rng.randrange(len(w)), rng.randrange(len(w))
                w[i], w[j] = w[j], w[i]
            words.append(w)
        out.append(dict(ty=rng.choice(["int", "str"]), words=words))
    return out


def nontrivial(r):
    return any(e.get("res") is True for e in r["ev"]) and any(e.get("res") is False for e in r["ev"])


def run(ck):
    ck.model_check("DyckMC", "DyckMC_thorough.cfg" if ck.thorough else "DyckMC.cfg", min_states=1000)
    gen = ck.generate("DyckGen", env=dict(GEN_N=ck.n(7, 9)))
    ck.conform("dyck-all-words", "core", "dyck", "DyckTrace", gen, batch=40000)
    ck.conform("dyck-random", "core", "dyck", "DyckTrace", random_cases(ck.rng, ck.n(500, 8000)), nontrivial=nontrivial)
    ck.conform("dyck-long", "core", "dyck", "DyckTrace", random_cases(ck.rng, ck.n(12, 120), (100, 200, 300), (1, 3, 1000000), True), nontrivial=nontrivial)
