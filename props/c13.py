"""C13: NEGRA export."""
import dtrees
from dtrees import cps


def big_cases(rng, n):
    out = []
    while len(out) < n:
        deep, wide = rng.choice([(3, 40), (10, 12), (40, 11)])
        sep = rng.random() < 0.5
        t = dtrees.grow(rng, rng.choice([30, 60, 90]), normal=not sep, deep=deep, wide=wide)
        if dtrees.work(t) < 20000 and 0 < dtrees.length(t) <= 80:
            out.append(dict(kind="negra", tree=t, sep=sep, given=rng.random() < 0.4, sid=rng.choice([0, 123456789]),
                            tokens=[cps(rng.choice(dtrees.WORDS)) for _ in range(dtrees.length(t))]))
    return out


def cases(rng, n):
    out = []
    while len(out) < n:
        sep = rng.random() < 0.5
        t = dtrees.grow(rng, rng.choice([2, 3, 5, 8, 12]), normal=not sep and rng.random() < 0.95)
        ln = dtrees.length(t)
        if ln <= 40:
            out.append(dict(kind="negra", tree=t, sep=sep, given=rng.random() < 0.4, sid=rng.choice([0, 1, 7, 42, 1000000]),
                            tokens=[cps(rng.choice(dtrees.WORDS)) for _ in range(ln)]))
    return out


def noparses(rng, n):
    out = []
    for _ in range(n):
        w = [cps(rng.choice(dtrees.WORDS)) for _ in range(rng.randint(0, 8))]
        out.append(dict(kind="noparse", words=w, given=rng.random() < 0.5, sid=rng.randint(0, 100), tokens=[cps(rng.choice(dtrees.NTS)) for _ in w]))
    return out


def run(ck):
    ck.assumptions += ["a tree that consists of a terminal rule alone has no constituent to hang its word on; nothing is demanded for it",
                       "symbols contain no tabulators and line feeds; as many tokens are supplied as there are words"]
    ck.model_check("DerivationMC", "DerivationMC_thorough.cfg" if ck.thorough else "DerivationMC.cfg", min_states=1000)
    gen = ck.generate("DerivationGen", env=dict(GEN_KIND="negra", GEN_N=ck.n(5, 6)))
    ck.conform("negra-all-trees", "core", "deriv", "DerivationTrace", gen, describe=dtrees.describe, batch=20000)
    ck.conform("negra-random", "core", "deriv", "DerivationTrace", cases(ck.rng, ck.n(2500, 30000)), describe=dtrees.describe, batch=10000,
               nontrivial=lambda r: bool(r["ev"]) and r["ev"][-1].get("text") not in ([], None))
    ck.conform("noparse-random", "core", "deriv", "DerivationTrace", noparses(ck.rng, ck.n(300, 3000)), batch=10000)
    ck.conform("negra-big", "core", "deriv", "DerivationTrace", big_cases(ck.rng, ck.n(80, 800)), describe=dtrees.describe, batch=10000)
