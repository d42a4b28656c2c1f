"""C33: the command line prints the parses of every sentence."""
import cmdline


def describe(r):
    return "init %s names %s rules %s" % (r["init"], r["names"], "; ".join("%s(%s)<-%s#%s" % (x["head"], ",".join("".join("%s%s" % (v[0], "".join(map(str, v[1:]))) for v in c) for c in x["comp"]),
                                                                                " ".join(x["tail"]), x["e"]) for x in r["rules"]))[:400]


def blocks(r):
    return any(len(e.get("out", [])) > 4 for e in r["ev"])


def run(ck):
    ck.assumptions += ["the command line is built with the stand-in for the unreachable integeriser crate",
                       "grammars in normal form; a sentence of one word is not an initial rule by itself (such a tree cannot be exported)",
                       "numbers given with -l differ from line to line; mcfg parse only with grammars whose components are used in order and do not begin with themselves"]
    ck.model_check("CommandLineMC", "CommandLineMC_thorough.cfg" if ck.thorough else "CommandLineMC.cfg", min_states=2000)
    gen = ck.generate("CommandLineGen", "CommandLineGen_thorough.cfg" if ck.thorough else None)
    gen = [dict(x, disco="", counts=[], unit=1, steps=[dict(st, said=False) if st["op"] == "extract" else st for st in x["steps"]]) for x in gen]
    ck.conform("sessions-all-grammars", "cli", "cli", "CommandLineTrace", gen, nontrivial=blocks, describe=describe, batch=100, case_timeout=120)
    ck.conform("sessions-random", "cli", "cli", "CommandLineTrace", cmdline.cases(ck.rng, ck.n(300, 8000)), nontrivial=blocks, describe=describe, batch=100, case_timeout=120)
