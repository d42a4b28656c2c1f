"""C17: discodop and rparse grammars."""


def cps(t):
    return [ord(x) for x in t]


def sym(rng):
    return rng.choice(["ROOT", "S", "NP", "VP", "VP_2", "NP|<DET-NN>", "VP|<VB-NP>_2", "NN", "DET", "VB", "$.", "$,", "ä", "日本", "A:B", "-->", "0", "1/2", "[x]", "é"])


def count(rng):
    r = rng.random()
    if r < 0.5:
        return str(rng.choice([1, 1, 2, 3, 5, 7, 10, 64, 1000]))
    if r < 0.9:
        return f"{rng.randint(1, 50)}/{rng.choice([1, 2, 3, 4, 5, 8, 10])}"
    return rng.choice(["0", "12345", "1234567", "007", "3/1", "1/1000"])


def ys(rng, two, maxlen):
    comps = rng.choice([1, 1, 1, 2, 2, 3, 4])
    return ",".join("".join(rng.choice("01" if two else "0") for _ in range(rng.choice([1, 1, 2, 3, rng.randint(1, maxlen)]))) for _ in range(comps))


def cline(rng, maxlen=5):
    two = rng.random() < 0.6
    b = rng.choice(["\t", "\t", " ", "  ", " \t"])
    return b.join([sym(rng), sym(rng)] + ([sym(rng)] if two else []) + [ys(rng, two, maxlen), count(rng)])


def lline(rng):
    b = rng.choice(["\t", " "])
    w = rng.choice(["the", "dog", "5", "1/2", "ä", "Haus", ",", "%", '"'])
    return b.join([w] + [x for _ in range(rng.choice([1, 1, 1, 2, 3])) for x in (sym(rng), count(rng))])


def rline(rng):
    two = rng.random() < 0.6
    sp = rng.choice([" ", " ", "  ", "\t"])
    w = rng.choice(["0.66", "1", "0.006557", "0.25", "12.5", "6.047046018020197E-5", "0.006557377049180328"])
    y = "[[" + ", ".join("[" + ", ".join(rng.choice(["true", "false"] if two else ["false"]) for _ in range(rng.choice([1, 1, 2, 3, 5]))) + "]" for _ in range(rng.choice([1, 1, 2, 3]))) + "]]"
    return sp.join([str(rng.randint(0, 99999)), w + ":" + rng.choice(["VROOT1", "S1", "@^PP2^VP3-X", "$.1", "A:B", "ä2"]), "-->"] + [sym(rng) for _ in range(2 if two else 1)]) + sp + y


def damage(rng, t):
    for _ in range(rng.choice([1, 1, 2, 4])):
        p = rng.randint(0, len(t))
        x = rng.choice(["del", "ins", "cut", "line", "rep"])
        if x == "del" and t:
            t = t[:p] + t[p + rng.randint(1, 3):]
        elif x == "ins":
            t = t[:p] + rng.choice(list("01 \t,/.:[]x") + ["\r\n", "\n\n", " ", "ä", "1e3", "-", "2"]) + t[p:]
        elif x == "cut":
            t = t[:p]
        elif x == "line":
            ls = t.split("\n")
            ls.insert(rng.randint(0, len(ls)), rng.choice(["", "x", "S", "S A", "S A 0", "S A 02 1", "S A 0 1.5", "S A 0 1/", "S A B C D E", "% comment", "S\tA\t0\t-1", "S A 0 x"]))
            t = "\n".join(ls)
        elif t and p < len(t):
            t = t[:p] + rng.choice("01 \t,/x2\n[]") + t[p + 1:]
    return t


def cases(rng, n, broken, lines=(0, 1, 2, 5, 12)):
    out = []
    for _ in range(n):
        if rng.random() < 0.2:
            t = "\n".join(rline(rng) for _ in range(rng.choice([1, 2, 5] if max(lines) < 20 else lines))) + rng.choice(["", "\n"])
            out.append(dict(kind="rparse", text=cps(damage(rng, t) if broken else t)))
            continue
        big = rng.random() < 0.1
        t = "\n".join(cline(rng, rng.choice([12, 33, 63, 64, 65, 70]) if big else 5) for _ in range(rng.choice(lines))) + rng.choice(["", "", "\n", "\n\n", " \n"])
        lex = []
        if rng.random() < 0.6:
            lex = ["\n".join(lline(rng) for _ in range(rng.choice([0, 1, 2, 6] if max(lines) < 20 else lines))) + rng.choice(["", "\n"])]
        if broken:
            if lex and rng.random() < 0.5:
                lex = [damage(rng, lex[0])]
            else:
                t = damage(rng, t)
        out.append(dict(kind="disco", text=cps(t), lex=[cps(x) for x in lex], dflt=rng.random() < 0.5, wt=rng.choice(["f64", "f64", "log"])))
    return out


def describe(r):
    return {"kind": r["kind"], "text": "".join(map(chr, r["text"])), "lex": ["".join(map(chr, x)) for x in r.get("lex", [])]}


def run(ck):
    ck.assumptions += ["white space around lines, blank lines between lines, empty components and components of more than 64 variables may be refused or read",
                       "a lexicon line that begins with a blank (empty word) is not compared; a nonterminal whose counts sum to zero has no shares",
                       "shares whose numerators or denominators exceed 2*10^5 are not compared", "rparse weights other than decimals with at most six digits after the point are not compared"]
    ck.model_check("TreebankMC", "TreebankMC_thorough.cfg" if ck.thorough else "TreebankMC.cfg", min_states=10000)
    gram = lambda r: any(e["op"] in ("gram", "rparse") and e["res"] for e in r["ev"])
    gen = ck.generate("TreebankGen", env=dict(GEN_MODE="layout"))
    ck.conform("treebank-all-layouts", "core", "treebank", "TreebankTrace", gen, describe=describe, batch=20000, nontrivial=gram)
    ck.conform("treebank-random", "core", "treebank", "TreebankTrace", cases(ck.rng, ck.n(3000, 40000), False), describe=describe, batch=10000, nontrivial=gram)
    gen = ck.generate("TreebankGen", env=dict(GEN_MODE="damage"))
    ck.conform("treebank-all-damages", "core", "treebank", "TreebankTrace", gen, describe=describe, batch=20000, nontrivial=lambda r: not gram(r))
    ck.conform("treebank-damaged", "core", "treebank", "TreebankTrace", cases(ck.rng, ck.n(3000, 40000), True), describe=describe, batch=10000, nontrivial=lambda r: not gram(r))
    ck.conform("treebank-big", "core", "treebank", "TreebankTrace", cases(ck.rng, ck.n(60, 600), False, (30, 60)), describe=describe, batch=10000, nontrivial=gram)
