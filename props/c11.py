"""C11: evaluation of derivation trees."""
import dtrees


def big_cases(rng, n):
    out = []
    while len(out) < n:
        deep, wide = rng.choice([(3, 40), (10, 12), (40, 11)])
        t = dtrees.grow(rng, rng.choice([30, 60, 90]), faulty=rng.choice([0, 0, 0.02]), deep=deep, wide=wide)
        if dtrees.work(t) < 20000 and 0 < dtrees.length(t) <= 150:
            out.append(dict(kind="eval", tree=t))
    return out


def cases(rng, n):
    out = []
    while len(out) < n:
        t = dtrees.grow(rng, rng.choice([1, 2, 3, 5, 8, 12]), faulty=rng.choice([0, 0, 0.1, 0.3]))
        if dtrees.length(t) <= 60:
            out.append(dict(kind="eval", tree=t))
    return out


def run(ck):
    ck.assumptions += ["a refusal is a panic; a use of a missing component below a component that nobody needs may or may not be refused"]
    ck.model_check("DerivationMC", "DerivationMC_thorough.cfg" if ck.thorough else "DerivationMC.cfg", min_states=1000)
    gen = ck.generate("DerivationGen", env=dict(GEN_KIND="eval", GEN_N=ck.n(5, 7)))
    ck.conform("eval-all-trees", "core", "deriv", "DerivationTrace", gen, describe=dtrees.describe, batch=20000)
    ck.conform("eval-random", "core", "deriv", "DerivationTrace", cases(ck.rng, ck.n(3000, 40000)), describe=dtrees.describe, batch=10000,
               nontrivial=lambda r: len(r["ev"]) > 3 and r["ev"][1].get("res") not in ([], None))
    ck.conform("eval-big", "core", "deriv", "DerivationTrace", big_cases(ck.rng, ck.n(80, 800)), describe=dtrees.describe, batch=10000)
