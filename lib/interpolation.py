"""I01, I02: interpolation and approximation (spec/Interp.tla)."""
import copy

RULE = {
    "I01": "1 to 9, also 10 to 55, points with distinct abscissae (a sixteenth apart at least) in any order, values of polynomials of smaller degree or "
           "arbitrary, 10 to 130 digits.",
    "I02": "Odd, even and general functions, polynomials of lower degree and expressions without a value, 0 to 13, also up to 46, terms (fitting "
           "the parity or not), intervals inside [-2, 2] (some reversed or empty), 20 to 80 digits.",
}
ASSUME = ["the ends of the interval are multiples of an eighth, so that they are exact in decimal"]


def corrupt(rec):
    rec = copy.deepcopy(rec)
    if "terms" in rec:
        rec["terms"][-1] = "7.000001"
        return rec
    if rec.get("st") != "ok" or rec["res"].get("st") != "ok":
        return None
    rec["res"]["ast"] = ["o", "*", rec["res"]["ast"], ["n", "1.000000000001"]]
    rec["res"]["re"] = rec["res"]["ast"]
    return rec


def run(ck):
    size = {"I01": (6000, 120000), "I02": (3000, 60000)}[ck.pid]
    consts = {"Seed": ck.seed, "Mode": ck.pid, "Count": ck.size(*size), "Chunk": 25}
    ck.selftest()
    ck.tlc("RealFnTest", init=None)
    ck.tlc("InterpGen", dict(consts, ScenFile=ck.path("scen")))
    lines, got = ck.replay(ck.path("scen"), ck.path("obs"), limit=30)
    ck.validate("InterpTrace", consts, lines, got, corrupt)
    return ck.finish("model_checking", RULE[ck.pid], ASSUME)


CHECKS = {k: run for k in RULE}
