"""A01-A06: histories of expression operations (spec/Session.tla)."""
import copy

RULE = ("Histories of operations (parse, + - * /, substitute, expand, parenthesise, collect, print and re-parse, number "
        "type) over up to 9 registers, chosen by the specification: random ones by seed, and every three-operation "
        "history over a menu of 12 operations from 8 pairs of starting expressions (all of them in the thorough tier, a "
        "sample otherwise). A step is validated when the specification's action admits the observed result; non-trivial "
        "steps are counted per operation under counters.")
ASSUME = ["syn parses and prints Rust tokens correctly (the harness reports syn's trees)",
          "two expressions that differ in value agree in both random environments of GF(32749) with probability below 1e-7",
          "a literal zero is never the divisor of a literal (outside the domain of the operator)"]


def corrupt(rec):
    """A different value in the last accepted step."""
    if rec.get("st") != "ok":
        return None
    rec = copy.deepcopy(rec)
    for s in reversed(rec["steps"]):
        if s["st"] == "ok":
            s["re"] = ["o", "+", s["re"], ["n", "1"]]
            return rec
    return None


def run(ck):
    n, m = ck.size((3500, 1500), (30000, 13824))
    if ck.pid in ("A06", "A05"):
        n, m = ck.size((3000, 2500), (30000, 13824))
    consts = {"Seed": ck.seed, "Mode": ck.pid, "N": n, "M": m, "Chunk": 100}
    ck.selftest()
    ck.tlc("SessionMC", {"Seed": ck.seed, "Mode": ck.pid, "Depth": ck.size(3, 4)},
           invariants=["SubstitutionIsRebinding", "ExpansionAchievable", "GroupingAchievable", "OrderOfBindings"])
    ck.tlc("SessionGen", dict(consts, ScenFile=ck.path("scen")))
    lines, got = ck.replay(ck.path("scen"), ck.path("obs"))
    ck.validate("SessionTrace", consts, lines, got, corrupt)
    return ck.finish("model_checking", RULE, ASSUME)


CHECKS = {k: run for k in ("A01", "A02", "A03", "A04", "A05", "A06")}
