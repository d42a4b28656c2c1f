"""C21: storages, instructions and transitions."""


def tree_script(rng, n, vals, nums):
    out = []
    for _ in range(n):
        r, v, k = dict(to=rng.randint(1, 3)), lambda: rng.choice(vals), lambda: rng.choice(nums)
        r["from"] = r["to"] if rng.random() < 0.8 else rng.randint(1, 3)
        op = rng.choice(["push"] * 3 + ["pushwith", "pushnext", "up", "up", "down", "down", "down", "set", "instr", "instr", "instr", "instr", "map", "number", "ups", "cur", "all", "text", "trans", "eq"])
        ins = lambda: rng.choice([["Up", k(), v(), v(), v()], ["Push", k(), v(), v()], ["Down", v(), v(), v()]])
        if op in ("push", "pushwith"):
            r.update(n=k(), a=v())
        elif op in ("pushnext", "set", "all"):
            r.update(a=v())
        elif op == "map":
            r.update(a=rng.choice([-1, 0, 1]))
        elif op == "up":
            r.update(n=k())
        elif op == "instr":
            r.update(i=ins())
        elif op == "trans":
            word = [rng.randint(1, 2) for _ in range(rng.randint(0, 3))]
            pre = word[:rng.randint(0, 3)] if rng.random() < 0.7 else [rng.randint(1, 2) for _ in range(rng.randint(0, 3))]
            r.update(tr=dict(word=pre, weight=rng.randint(-3, 3), instr=ins()), word=word, weight=rng.randint(-3, 3))
        out.append(dict(r, op=op))
    return out


def pd_script(rng, n, vals):
    out = []
    for _ in range(n):
        r = dict(to=rng.randint(1, 3), op=rng.choice(["push", "push", "push", "set", "pop", "pop", "map", "number", "read", "read", "eq", "new"]))
        r["from"] = r["to"] if rng.random() < 0.7 else rng.randint(1, 3)
        if r["op"] in ("push", "set"):
            r["a"] = rng.choice(vals)
        if r["op"] == "map":
            r["a"] = rng.choice([-1, 0, 1])
        out.append(r)
    return out


def push_script(rng, n, vals):
    out = []
    word = lambda m: [rng.choice(vals) for _ in range(rng.choice(m))]
    for _ in range(n):
        r = dict(to=rng.randint(1, 3), op=rng.choice(["replace", "replace", "instr", "instr", "instr", "map", "number", "read", "read", "eq", "new", "trans"]))
        r["from"] = r["to"] if rng.random() < 0.7 else rng.randint(1, 3)
        if r["op"] in ("replace", "instr"):
            r.update(old=word([0, 0, 1, 1, 1, 2]), new=word([0, 1, 1, 2, 2, 3]))
        if r["op"] == "map":
            r["a"] = rng.choice([-1, 0, 1])
        if r["op"] == "new":
            r.update(a=rng.choice(vals), b=rng.choice(vals))
        if r["op"] == "trans":
            w = [rng.randint(1, 2) for _ in range(rng.randint(0, 3))]
            pre = w[:rng.randint(0, 3)] if rng.random() < 0.7 else [rng.randint(1, 2) for _ in range(rng.randint(0, 3))]
            r.update(tr=dict(word=pre, weight=rng.randint(-3, 3), old=word([0, 1, 2]), new=word([0, 1, 2])), word=w, weight=rng.randint(-3, 3))
        out.append(r)
    return out


def cases(rng, n):
    out = []
    for _ in range(n):
        vals = rng.choice([[0, 1], [0, 1, 2], list(range(6)), [10 ** 6, -5, 0]])
        nums = rng.choice([[0, 1], [0, 1, 2], [0, 3, 9], [0, 1, 40]])
        k = rng.choice(["tree", "tree", "pd", "push"])
        m = rng.choice([5, 15, 40])
        if k == "tree":
            out.append(dict(kind=k, root=rng.choice(vals), script=tree_script(rng, m, vals, nums)))
        elif k == "pd":
            out.append(dict(kind=k, root=[rng.choice(vals) for _ in range(rng.choice([0, 0, 1, 3]))], script=pd_script(rng, m, vals)))
        else:
            out.append(dict(kind=k, root=[rng.choice(vals) for _ in range(rng.choice([1, 2, 4]))], script=push_script(rng, m, vals)))
    return out


def run(ck):
    ck.assumptions += ["symbols are 64-bit integers (numbered ones are compared after translation back)"]
    ck.model_check("StoragesMC", "StoragesMC_thorough.cfg" if ck.thorough else "StoragesMC.cfg", min_states=10000)
    gen = ck.generate("StoragesGen", env=dict(GEN_N=ck.n(4, 5)))
    ok = lambda r: any(e.get("op") == "instr" and e["res"] for e in r["ev"])
    ck.conform("storages-all-short", "full", "storages", "StoragesTrace", gen, nontrivial=ok, batch=10000)
    ck.conform("storages-random", "full", "storages", "StoragesTrace", cases(ck.rng, ck.n(2500, 30000)), nontrivial=ok, batch=10000)
