"""N01, N02: literals and number types (spec/Numbers.tla)."""
import copy

RULE = {
    "N01": "Expressions whose literals are floats, the points halfway between floats and their neighbours, integers and ordinary "
           "numbers, converted to every type and width (and to unknown ones).",
    "N02": "Floats of both widths over all exponents, decimals of up to 200 bits, truth values, texts of numbers and non-numbers, "
           "lists of bindings.",
}
ASSUME = ["syn parses Rust tokens correctly (the harness reports syn's trees)", "infinities and NaN have no literal and are outside the domain"]


def corrupt(rec):
    rec = copy.deepcopy(rec)
    if "res" in rec:
        if rec["res"].get("st") != "ok":
            return None
        rec["res"]["ast"] = ["u", "-", rec["res"]["ast"]]
        return rec
    if "found" in rec:
        rec["found"] = ["n", "99"]
    elif rec.get("st") == "ok":
        rec["num"] = not rec["num"]
    else:
        return None
    return rec


def run(ck):
    size = {"N01": (12000, 300000), "N02": (15000, 300000)}[ck.pid]
    consts = {"Seed": ck.seed, "Mode": ck.pid, "Count": ck.size(*size), "Chunk": 50}
    ck.selftest()
    ck.tlc("FloatTest", init=None)
    ck.tlc("NumbersGen", dict(consts, ScenFile=ck.path("scen")))
    lines, got = ck.replay(ck.path("scen"), ck.path("obs"), limit=20)
    ck.validate("NumbersTrace", consts, lines, got, corrupt)
    return ck.finish("model_checking", RULE[ck.pid], ASSUME)


CHECKS = {k: run for k in RULE}
