"""E01-E05: evaluation of constant expressions (spec/Eval.tla)."""
import copy

RULE = {
    "E01": "Arithmetic expressions of up to 4 levels over literals in every written form and 60 bit numbers, at 1 to 80 digits, "
           "including every pair of operators in both groupings.",
    "E02": "Numbers of up to 120 bits with up to 45 places, exactly at, just above and just below a tie, rounded to 0 to 24 places; "
           "the round method; and numbers rounded to 32 and 64 bit floats, exactly halfway between neighbours, beside that, at the ends of "
           "the range and anything.",
    "E03": "Every elementary function at 3 to 80 digits, arguments at and beside the internal splits and over the range.",
    "E04": "erf, erfc, dnorm, pnorm, qnorm and qnorm of pnorm, for various means and deviations, at 6 to 40 digits.",
    "E05": "Random expressions over everything the grammar offers, including every kind of fault.",
}
ASSUME = ["syn parses Rust tokens correctly (the harness reports syn's trees)",
          "accuracy is promised where the argument of a series is at most max(2, digits / 2) (see spec/Eval.tla, Promised)",
          "the arithmetic keeps 100 significant digits, so results are compared to at most 98"]


def corrupt(rec):
    rec = copy.deepcopy(rec)
    if rec.get("st") != "ok":
        return None
    if "v" in rec:
        rec["v"] = ["n", rec["v"][1] + ("9" if "." in rec["v"][1] else ".9")]
        return rec
    for n in reversed(rec["nodes"]):
        if n["st"] == "ok" and n["v"][0] == "n" and n["t"][0] in ("o", "u", "n"):
            n["v"] = ["n", n["v"][1].lstrip("-") + ("9" if "." in n["v"][1] else ".5")] if n["v"][1] not in ("0",) else ["n", "1"]
            if n["t"][0] == "o" and n["t"][1] in "*/":
                n["v"] = ["n", "123456.5"]
            return rec
    return None


def corrupt_any(rec):
    """The last node becomes an error, or a value instead of an error."""
    rec = copy.deepcopy(rec)
    if rec.get("st") != "ok" or not rec.get("nodes"):
        return None
    n = rec["nodes"][-1]
    if n["st"] == "ok":
        n.clear()
        n.update({"t": rec["nodes"][-1].get("t", ["n", "1"]), "st": "panic"})
        n["t"] = ["n", "1"]
    else:
        n["st"], n["v"] = "ok", ["n", "1"]
    return rec


def run(ck):
    size = {"E01": (8000, 200000), "E02": (12000, 400000), "E03": (6000, 120000), "E04": (3000, 60000), "E05": (8000, 150000)}[ck.pid]
    consts = {"Seed": ck.seed, "Mode": ck.pid, "Count": ck.size(*size), "Chunk": 25}
    ck.selftest()
    ck.tlc("RealFnTest", init=None)
    ck.tlc("EvalGen", dict(consts, ScenFile=ck.path("scen")))
    lines, got = ck.replay(ck.path("scen"), ck.path("obs"), limit=20)
    ck.validate("EvalTrace", consts, lines, got, corrupt if ck.pid != "E05" else corrupt_any)
    return ck.finish("model_checking", RULE[ck.pid], ASSUME)


CHECKS = {k: run for k in RULE}
