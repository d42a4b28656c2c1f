"""C34: the commands of automata print the best runs for every line."""
import autgen
import cmdruns


def describe(r):
    return "%s %s" % (r["kind"], str(r.get("g") or r.get("trans")))[:400]


def found(r):
    return any(o["runs"] for e in r["ev"] if e.get("op") == "recog" for o in e["out"])


def run(ck):
    ck.assumptions += ["the command line is built with the stand-in for the unreachable integeriser crate",
                       "weights are dyadic numbers; searches are finite, or only asked for results better than everything still pending",
                       "grammars are not left recursive; MCFGs are ordered, linear and non-deleting"]
    ck.model_check("CommandRunsMC", "CommandRunsMC_thorough.cfg" if ck.thorough else "CommandRunsMC.cfg", min_states=20000)
    gen = []
    for kind, what in (("cfg", "run"), ("cfg", "approx"), ("pmcfg", "run"), ("pmcfg", "approx"), ("tsa", "run")):
        cs = ck.generate("AutomataGen", env=dict(GEN_KIND=kind, GEN_WHAT=what, GEN_N=2 if what == "approx" or kind == "tsa" else ck.n(2, 3), GEN_WORD=3))
        k = ck.n(80, 600)
        gen += [cmdruns.of_gen(ck.rng, x) for x in (cs if len(cs) <= k else ck.rng.sample(cs, k))]
    ck.conform("sessions-small-automata", "cli", "runs", "CommandRunsTrace", gen, nontrivial=found, describe=describe, batch=200, case_timeout=120)
    ck.conform("sessions-random", "cli", "runs", "CommandRunsTrace", cmdruns.cases(ck.rng, ck.n(400, 5000)), nontrivial=found, describe=describe, batch=200, case_timeout=120)
