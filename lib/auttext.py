"""Random texts of automata in the documented formats."""
import gtext

WORDS = ["S", "A", "B", "q0", "q_1", "p'", "äß", "日", "0", "12", "007", "->", "a,b", "x#", "\"q\"", "(", "→", "@", "Up", "%"]


def state(rng, s, wild):
    if s == "int":
        return rng.choice(["0", "1", "2", "17", "007", "123456789"])
    if not wild or rng.random() < 0.5:
        return rng.choice("SABC")
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    return "".join(rng.choice(gtext.ALPH + ',#%;-"[]') for _ in range(rng.randint(1, 5)))


def declared(rng, q, quote):
    return '"' + q + '"' if quote or set(q) & gtext.STOP or "=>" in q else q


def weight(rng, wt):
    if wt == "int":
        return str(rng.choice([0, 1, 2, 3, 10, 2000, "007"]))
    return gtext.weight(rng)


def instr(rng, form, s, wild, bl):
    q = lambda: state(rng, s, wild).replace(")", "")or "S"
    n = lambda: str(rng.choice([0, 1, 2, 9, 999999999]))
    if form == "fsa":
        ws = [q(), rng.choice(["→", "->"]), q()]
    else:
        k = rng.choice(["Up", "Push", "Down"])
        ws = [k] + ([n()] if k != "Down" else []) + [q() for _ in range(2 if k == "Push" else 3)]
    out = bl(0)
    for i, w in enumerate(ws):
        out += (bl(1) or " ") * (i > 0) + w
    return out + bl(0)


def trans(rng, form, s, wt, wild=True):
    tight = rng.random() < 0.3
    bl = lambda lo: gtext.blanks(rng, lo, tight)
    style = rng.choice(["bare", "mixed", "quoted"])
    letters = [gtext.spell(rng, gtext.sym(rng) if wild else rng.choice("ab"), style) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
    t = "Transition" + bl(1) + gtext.vec(rng, "[", "]", letters, tight) + bl(1) + "(" + instr(rng, form, s, wild, bl) + ")"
    if rng.random() < 0.7:
        t += bl(1) + "#" + bl(0) + weight(rng, wt)
        if rng.random() < 0.3:
            t += " " + bl(0)
    if rng.random() < 0.3:
        t += rng.choice([" % comment", "  %", " %% Transition [] (S → S) # 3"])
    return t


def automaton(rng, form, s, wt, wild=True):
    lines = [trans(rng, form, s, wt, wild) for _ in range(rng.choice([0, 1, 2, 3, 6, 12]))]
    bl = lambda lo: gtext.blanks(rng, lo, False)
    tail = lambda: rng.choice(["", "", "", " % c", "  "])
    put = lambda x: lines.insert(rng.randint(0, len(lines)) if rng.random() < 0.4 else 0, x)
    for _ in range(rng.choice([1] * 20 + [0, 2])):
        put("initial:" + bl(0) + declared(rng, state(rng, s, wild), rng.random() < 0.3) + tail())
    if form == "fsa":
        for _ in range(rng.choice([1] * 20 + [0, 2])):
            qs = [declared(rng, state(rng, s, wild), rng.random() < 0.3) for _ in range(rng.choice([1, 1, 2, 3, 0]))]
            put("final:" + bl(0) + gtext.vec(rng, "[", "]", qs, rng.random() < 0.3) + tail())
    out = []
    for ln in lines:
        while rng.random() < 0.25:
            out.append(rng.choice(["", "% comment", "  % [indented", "   ", "\t", "%", "% initial: X", "%\"→"]))
        out.append(rng.choice(["", "", "", "  ", "\t"]) + ln + rng.choice(["", "", "", " ", " \t"]))
    nl = "\r\n" if rng.random() < 0.15 else "\n"
    return nl.join(out) + rng.choice(["", nl, nl * 2])


def cases(rng, n, damaged):
    out = []
    for _ in range(n):
        form, s, wt = rng.choice(["tsa", "fsa"]), rng.choice(["str", "int"]), rng.choice(["log", "int"])
        what = rng.choice(["aut", "aut", "aut", "trans", "instr"])
        wild = rng.random() < 0.6
        t = (automaton(rng, form, s, wt, wild) if what == "aut" else trans(rng, form, s, wt, wild) if what == "trans"
             else instr(rng, form, s, wild, lambda lo: gtext.blanks(rng, lo, False)))
        if damaged:
            t = gtext.noise(rng) if rng.random() < 0.05 else gtext.damage(rng, t)
        out.append(dict(what=what, form=form, sym=s, wt=wt, text=gtext.cps(t), print=True))
    return out
