"""Sessions of the commands of automata (cfg, mcfg, tsa, approximation)."""
import autgen

POOLS = [["a", "b", "c", "z"], ["der", "Mann", "schläft", "?"], ["→", "#", "%", "//"], ["(", ")", "[", "]:"], ["日本", "ß", "–", "é"], ["1", "22", "0", "333"], ["Transition", "initial:", "word:", "+-0:"]]
NUMS = [1, 2, 3, 8]


def letters(rng):
    names = list(rng.choice(POOLS))
    rng.shuffle(names)
    return [[k, x] for k, x in zip(NUMS, names)]


def session(rng, lines, n, beam):
    return dict(op="recog", n=n, beam=beam, open=rng.random() < 0.25 and bool(lines) and bool(lines[-1]["word"]), lines=lines)


def line(rng, w, wide):
    return dict(word=list(w), blank=rng.choice([" ", " ", "  ", "\t"]), wide=wide)


def of_gen(rng, case):
    """the words of a generated case as sessions"""
    ws = [s["word"] for s in case["words"]]
    steps = [session(rng, [line(rng, w, 0) for w in ws], n, -1) for n in (-1, 2, 100)] if case["what"] == "run" else [session(rng, [line(rng, w, 0) for w in ws], -1, -1)]
    if case["kind"] != "tsa":
        steps.append(dict(op="print"))
    c = {k: v for k, v in case.items() if k not in ("words", "id")}
    return dict(c, letters=[[k, x] for k, x in zip(NUMS, "abcz")], steps=steps, star=False)


def case(rng, kind, what):
    ws = autgen.FINE if rng.random() < 0.3 else autgen.WEIGHTS
    a, data, abc = autgen.MAKE[kind](rng, ws)
    g = data if kind in ("cfg", "pmcfg") else None
    chain, auts = autgen.rand_chain(rng, kind, a, g, 1 if what == "approx" else 0)
    main = auts[-1]
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        lines, most, cut, wide = [], 10 ** 6, False, 0
        for w in autgen.words(rng, a if rng.random() < 0.8 else main, abc, rng.choice([1, 2, 4])):
            r = autgen.search(main, w, cap=200)
            if r is None or not r[3]:
                continue
            if not r[1]:
                cut, most = True, min(most, r[0])
            lines.append(line(rng, w, r[2] + max(1, len(main.tr))))
        if rng.random() < 0.03:
            lines = []
        if what == "approx":
            if most >= 1:
                steps.append(session(rng, lines, -1, -1))
            continue
        beam = rng.choice([-1, -1, 1, 2, 5, 1000]) if not cut else -1
        n = rng.choice([x for x in [-1, -1, 0, 1, 2, 3, 5, 100] if x <= most])
        steps.append(session(rng, lines, n, beam))
    if not steps:
        return None
    if kind != "tsa" and rng.random() < 0.5:
        steps.insert(rng.randrange(len(steps) + 1), dict(op="print"))
    c = dict(kind=kind, what=what, chain=chain, steps=steps, letters=letters(rng), star=rng.random() < 0.4)
    if g is not None:
        c["g"] = g
    else:
        c.update(trans=[[list(w), list(x), i] for w, x, i in data], init=a.init)
    return c


def cases(rng, n):
    out = []
    while len(out) < n:
        c = case(rng, *rng.choice([("cfg", "run"), ("cfg", "approx"), ("pmcfg", "run"), ("pmcfg", "approx"), ("tsa", "run")]))
        if c is not None:
            out.append(c)
    return out
