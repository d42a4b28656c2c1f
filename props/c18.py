"""C18: equivalence relations."""


def cps(t):
    return [ord(x) for x in t]


NAMES = ["a", "b", "S", "A", "B", "ab", "*", "*x", "a,b", "x y", "[", "]", "->", "%", "ä", "日本", "é]", "A1", "0", "", "\\", "N\"P", "\t"]


def quote(rng, w):
    plain = w and all(x not in ' \t\r\n"\\-,;[]()' for x in w)
    return w if plain and rng.random() < 0.7 else '"' + w + '"'


def relation(rng, ty, big, huge=False):
    """Classes with distinct labels and disjoint members, one of them the default; sometimes not."""
    if ty == "int":
        pool = [str(x) for x in rng.sample(range(0, 1000), 150 if huge else 40 if big else 12)]
    else:
        pool = [w for w in NAMES if not set(w) & set('"\\\t')]
        pool = pool + [f"w{k}" for k in range(150 if huge else 40)] if big else pool
    labels = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3, 5]) if not big else rng.choice([3, 60]) if huge else rng.randint(8, 20)))
    els = rng.sample(pool, rng.randint(0, len(pool)))
    cs = [dict(label=x, dflt=False, members=[]) for x in labels]
    for e in els:
        c = rng.choice(cs)
        c["members"].append(e)
        if rng.random() < 0.1:
            c["members"].append(e)
    d = rng.choice(cs)
    d["dflt"], d["members"] = True, []
    r = rng.random()
    if r < 0.06:
        d["dflt"] = False
    elif r < 0.12 and len(cs) > 1:
        a, b = rng.sample(cs, 2)
        a["label"] = b["label"]
    elif r < 0.18 and len(cs) > 2:
        a, b = rng.sample(cs, 2)
        if b["members"] and not a["dflt"]:
            a["members"].append(rng.choice(b["members"]))
    elif r < 0.22:
        cs.append(dict(label="zz" if ty == "str" else "7777", dflt=True, members=[]))
    return cs, pool


def text_of(rng, cs, ty):
    q = (lambda w: quote(rng, w)) if ty == "str" else (lambda w: w)
    out = ""
    for c in cs:
        b = rng.choice([" ", " ", "  ", "\t"]) if ty == "int" or True else ""
        body = "*" if c["dflt"] else "[" + rng.choice(["", " "]) + rng.choice([",", ", ", " , "]).join(q(m) for m in c["members"]) + "]"
        out += rng.choice(["", "", " ", "\t"]) + q(c["label"]) + b + body + rng.choice(["\n", "\n", "\r\n", "\n\n", " \n", "\n \t\n"])
    return out if rng.random() < 0.7 else out.rstrip("\n")


def conv(ty, cs):
    f = cps if ty == "str" else int
    return [dict(label=f(c["label"]), dflt=c["dflt"], members=[f(m) for m in c["members"]]) for c in cs]


def others(rng, ty, cs, pool):
    out = [conv(ty, rng.sample(cs, len(cs)))]
    for _ in range(3):
        ds = [dict(c, members=list(c["members"])) for c in cs]
        c = rng.choice(ds)
        x = rng.random()
        if x < 0.4 and not c["dflt"] and c["members"]:
            m = rng.choice(c["members"])
            c["members"] = [y for y in c["members"] if y != m]
            if x < 0.2:
                e = rng.choice(ds)
                if not e["dflt"]:
                    e["members"].append(m)
        elif x < 0.6:
            c["label"] = rng.choice(pool)
        elif x < 0.8:
            ds.remove(c)
        else:
            c["members"] = c["members"] + [rng.choice(pool)] if not c["dflt"] else []
        out.append(conv(ty, ds))
    return out


def cases(rng, n, broken, huge=False):
    out = []
    for _ in range(n):
        ty = rng.choice(["str", "str", "int"])
        cs, pool = relation(rng, ty, huge or rng.random() < 0.15, huge)
        f = cps if ty == "str" else int
        qs = [f(x) for x in rng.sample(pool, min(len(pool), 60 if huge else 12))] + [f("zzz" if ty == "str" else "99999")]
        k = "text" if broken else rng.choice(["text", "text", "map", "list"])
        case = dict(kind=k, ty=ty, queries=qs, others=others(rng, ty, cs, pool))
        if k == "text":
            t = text_of(rng, cs, ty)
            if broken:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    p = rng.randint(0, len(t))
                    x = rng.random()
                    if x < 0.4:
                        t = t[:p] + rng.choice(list(' \t\n",[]*ab0-%\\') + ["\r\n", "ä", "a *\n", "b []\n", '""', "%x", " x", "[a]"]) + t[p:]
                    elif x < 0.8:
                        t = t[:p] + t[p + rng.randint(1, 3):]
                    elif x < 0.9:
                        t = t[:p]
                    else:
                        ls = t.split("\n")
                        ls.insert(rng.randint(0, len(ls)), rng.choice(ls))
                        t = "\n".join(ls)
            case["text"] = cps(t)
        elif k == "map":
            ds = [c for c in cs if not c["dflt"]]
            if len({c["label"] for c in ds}) < len(ds):
                continue
            case.update(classes=conv(ty, ds), default=f(rng.choice([c["label"] for c in cs])))
        else:
            case.update(classes=conv(ty, cs))
        out.append(case)
    return out


def describe(r):
    return {"kind": r["kind"], "text": "".join(map(chr, r["text"]))} if "text" in r else r


def run(ck):
    ck.assumptions += ["what follows a class on its line, and lines that begin or end with white space other than blanks, may be refused or ignored",
                       "numbers of more than nine digits are not compared",
                       "a list of classes that overlap is not refused by the (infallible) conversion; what it yields then is not compared"]
    ck.model_check("EquivalenceMC", "EquivalenceMC_thorough.cfg" if ck.thorough else "EquivalenceMC.cfg", min_states=3000)
    got = lambda r: any(e["op"] in ("rel", "class") and e["res"] for e in r["ev"])
    gen = ck.generate("EquivalenceGen", env=dict(GEN_N="2"))
    ck.conform("equivalence-all-small", "core", "equiv", "EquivalenceTrace", gen, describe=describe, batch=20000, nontrivial=got)
    ck.conform("equivalence-random", "core", "equiv", "EquivalenceTrace", cases(ck.rng, ck.n(4000, 60000), False), describe=describe, batch=10000, nontrivial=got)
    ck.conform("equivalence-damaged", "core", "equiv", "EquivalenceTrace", cases(ck.rng, ck.n(4000, 60000), True), describe=describe, batch=10000, nontrivial=lambda r: not got(r))
    ck.conform("equivalence-big", "core", "equiv", "EquivalenceTrace", cases(ck.rng, ck.n(60, 600), False, True), describe=describe, batch=10000, nontrivial=got)
