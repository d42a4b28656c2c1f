"""C12: separation of terminals."""
import dtrees


def big_cases(rng, n):
    out = []
    while len(out) < n:
        deep, wide = rng.choice([(3, 40), (10, 12), (40, 11)])
        t = dtrees.grow(rng, rng.choice([30, 60, 90]), deep=deep, wide=wide)
        if dtrees.work(t) < 20000 and 0 < dtrees.length(t) <= 150:
            out.append(dict(kind="sep", tree=t))
    return out


def cases(rng, n):
    out = []
    while len(out) < n:
        t = dtrees.grow(rng, rng.choice([1, 2, 3, 5, 8, 12]))
        if dtrees.length(t) <= 60:
            out.append(dict(kind="sep", tree=t))
    return out


def run(ck):
    ck.assumptions += ["symbols are nonempty strings; rules that are in normal form already stay as they are"]
    ck.model_check("DerivationMC", "DerivationMC_thorough.cfg" if ck.thorough else "DerivationMC.cfg", min_states=1000)
    gen = ck.generate("DerivationGen", env=dict(GEN_KIND="sep", GEN_N=ck.n(5, 7)))
    ck.conform("sep-all-trees", "core", "deriv", "DerivationTrace", gen, describe=dtrees.describe, batch=20000)
    ck.conform("sep-random", "core", "deriv", "DerivationTrace", cases(ck.rng, ck.n(3000, 40000)), describe=dtrees.describe, batch=10000,
               nontrivial=lambda r: bool(r["ev"]) and len(r["ev"][0].get("tree", [])) > len(r["tree"]))
    ck.conform("sep-big", "core", "deriv", "DerivationTrace", big_cases(ck.rng, ck.n(80, 800)), describe=dtrees.describe, batch=10000)
