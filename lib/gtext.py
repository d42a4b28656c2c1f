"""Random grammar texts in the documented formats, and damaged ones."""

STOP = set(' \\"-→,;)]%#')
ALPH = "abcdSABNTVxyzäßλ„–’日1209.:'_*+/=<>{}[(@$&!?|~^"


def sym(rng, simple=0.5, long=False):
    if rng.random() < simple:
        return rng.choice(["S", "A", "B", "a", "b", "c", "NP", "VP", "T", "Nt", "Var", "initial", "0", "1"])
    n = rng.choice([1, 1, 2, 3, 8]) if not long else rng.choice([1, 20, 90])
    pool = ALPH if rng.random() < 0.7 else ALPH + ' -→,;)]%#'
    t = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.1:
        t.insert(rng.randint(0, n), rng.choice(['\\"', "\\\\", '\\\\\\"']))
    return "".join(t)


def spell(rng, s, style):
    bare_ok = not (set(s) & STOP) and "=>" not in s
    if bare_ok and (style == "bare" or (style == "mixed" and rng.random() < 0.6)):
        return s
    return '"' + s + '"'


def blanks(rng, lo, tight):
    if tight:
        return " " * lo
    return "".join(rng.choice("    \t") for _ in range(rng.choice([lo, lo, lo + 1, lo + 3]))) if lo or rng.random() < 0.6 else ""


def weight(rng):
    r = rng.random()
    if r < 0.15:
        return str(rng.choice([0, 1, 2, 10, 2000]))
    if r < 0.3:
        return rng.choice(["0.5", "0.25", "1.0", "0.000001", "0.1", "0.7"])
    if r < 0.85:
        return f"{rng.choice([0, 0, 0, 1, 12, 1999])}.{''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 6)))}"
    return f"0.{''.join(rng.choice('0123456789') for _ in range(rng.randint(7, 18)))}"


def vec(rng, op, cl, elems, tight):
    s = op + blanks(rng, 0, tight)
    for i, e in enumerate(elems):
        if i:
            s += "," + blanks(rng, 0, tight)
        s += e
        if rng.random() < 0.3 and not tight:
            s += " " * rng.randint(1, 3)
    return s + cl


def rule(rng, kind, style=None, tight=None, wild=True, big=False):
    style = style or rng.choice(["bare", "mixed", "quoted"])
    tight = rng.random() < 0.3 if tight is None else tight
    sp = lambda x: spell(rng, x, style)
    y = lambda: sym(rng, 0.7, True) if big and wild else sym(rng) if wild else rng.choice("ABab")
    bl = lambda lo: blanks(rng, lo, tight)
    # a blank after a bare symbol may not be a tab
    b1 = lambda: " " + bl(0)
    head = sp(y())
    arrow = rng.choice(["→", "->", "=>"])
    s = head + b1() + arrow + bl(0)
    if kind == "cfg":
        s += vec(rng, "[", "]", [(lambda k: k + b1() + sp(y()))(rng.choice(["T", "Nt"])) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if not big else rng.choice([9, 20, 40]))], tight)
    else:
        nt = rng.choice([0, 0, 1, 2, 2, 3]) if not big else rng.choice([0, 9, 20, 40])
        comps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if not big else rng.choice([1, 9, 20])):
            comp = []
            for _ in range(rng.choice([0, 1, 2, 4]) if not big else rng.choice([0, 1, 2, 20])):
                if rng.random() < 0.5:
                    comp.append("T" + b1() + sp(y()))
                else:
                    comp.append("Var" + b1() + str(rng.choice([0, 1, 2, 17, 123, 65536, 1000000000])) + b1() + str(rng.choice([0, 1, 2, 30, 300, 70000])))
            comps.append(vec(rng, "[", "]", comp, tight))
        s += vec(rng, "[", "]", comps, tight) + bl(0) + vec(rng, "(", ")", [sp(y()) for _ in range(nt)], tight)
    if rng.random() < 0.7:
        s += bl(0) + "#" + bl(0) + weight(rng)
        if rng.random() < 0.3:
            s += " " + bl(0)
    if rng.random() < 0.3:
        s += rng.choice([" % comment", "  %", " %% x → [T a] # 3", " % initial: [A]"])
    return s


def grammar(rng, kind, wild=True, crlf=None, size=None):
    tight = rng.random() < 0.3
    k = "cfg" if kind == "cfg" else "pmcfg"
    out = []
    nini = 1 if kind == "lcfrs" else rng.choice([0, 1, 1, 1, 2, 3])
    body = [rule(rng, k, wild=wild) for _ in range(rng.choice([0, 1, 2, 3, 6]) if size is None else size)]
    if size is not None and rng.random() < 0.5:
        body = [rule(rng, k, wild=wild, big=True) for _ in range(rng.choice([1, 2]))]
    for _ in range(nini):
        elems = [spell(rng, sym(rng) if wild else "S", "mixed") for _ in range(1 if kind == "lcfrs" else rng.choice([0, 1, 1, 2, 4]))]
        line = "initial:" + blanks(rng, 0, tight) + vec(rng, "[", "]", elems, tight) + rng.choice(["", "", " % c", "  "])
        body.insert(rng.randint(0, len(body)) if rng.random() < 0.4 else 0, line)
    for ln in body:
        while rng.random() < 0.25:
            out.append(rng.choice(["", "", "% comment", "  % [indented", "   ", "\t", "%", "% initial: [X]", "%\"→"]))
        out.append(rng.choice(["", "", "", "  ", "\t"]) + ln + rng.choice(["", "", "", " ", " \t"]))
    nl = "\r\n" if (crlf if crlf is not None else rng.random() < 0.15) else "\n"
    return nl.join(out) + rng.choice(["", nl, nl * 2])


JUNK = list(' \t"\\%#,;[]()-→=>01.e:') + ["T ", "Nt ", "Var ", "Var 0", " # ", "initial:", "[]", "()", "ä", "„", "\u2028", "’", "日",
                                         "\r", "\n", "\x00", "99999999999999999999999", "18446744073709551616", "# x", "# 1e400", "# -1", "# nan",
                                         "# 0.5.5", "#", "\"\"", "\\\"", "->", "# ", "# 1,5", "0x1", "-0", "+1", "\u00a0", "\ufeff"]


def damage(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        r = rng.random()
        p = rng.randint(0, len(t))
        if r < 0.2:
            t = t[:p]
        elif r < 0.45 and t:
            q = min(len(t), p + rng.choice([1, 1, 2, 5]))
            t = t[:p] + t[q:]
        elif r < 0.75:
            t = t[:p] + list(rng.choice(JUNK)) + t[p:]
        elif r < 0.9 and t:
            p = rng.randrange(len(t))
            t[p:p + 1] = list(rng.choice(JUNK))
        elif t:
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return "".join(t)


def noise(rng):
    return "".join(rng.choice(JUNK) if rng.random() < 0.6 else rng.choice(ALPH) for _ in range(rng.randint(0, 30)))


def cps(t):
    return [ord(x) for x in t]
