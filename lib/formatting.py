"""F01: formatting token streams (spec/Tokens.tla)."""
import copy

RULE = ("Every pair of tokens of a menu of 36 next to each other, at top level and in braces; random streams of all kinds of tokens; "
        "nests of up to 120 groups; Rust programs around random expressions. Lexemes are compared as the lexer would read them.")


def corrupt(rec):
    rec = copy.deepcopy(rec)
    if rec.get("st") != "ok" or not rec["re"]:
        return None
    rec["re"] = rec["re"][:-1]
    return rec


def f01(ck):
    consts = {"Seed": ck.seed, "Count": ck.size(9000, 200000), "Chunk": 50}
    ck.tlc("TokensGen", dict(consts, ScenFile=ck.path("scen")))
    lines, got = ck.replay(ck.path("scen"), ck.path("obs"), limit=20)
    ck.validate("TokensTrace", consts, lines, got, corrupt)
    return ck.finish("model_checking", RULE, ["proc_macro2's lexer splits text into tokens as rustc does", "invisible delimiters have no text"])


CHECKS = {"F01": f01}
