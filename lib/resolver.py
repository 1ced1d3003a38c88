"""R01-R03: what the generator selects and writes."""
import concurrent.futures
import json
import os
import subprocess

import common

RULE = ("Requests chosen by the specification on the code's own table: every single request with every single exclusion, "
        "every ordered pair of requests, random longer lists with repetitions and unknown names. The machine itself is "
        "model-checked on every dependency graph over 3 nodes (4 in the thorough tier, sampled exclusions).")


def run_cli(binary, args, stdin=None, cwd=None, timeout=300):
    p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=stdin, timeout=timeout,
                       cwd=cwd or common.VERIF)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def spaced(text):
    """The text with every run of white space as one space: how items are laid out is not the resolver's matter."""
    return "".join(w + " " for w in text.split())


def par(f, items, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))


def read_table(ck, binary):
    out, ck.hooked = common.hook(binary, "verif-table")
    ck.notes["hooks"] = ck.hooked
    table = []
    for line in out.splitlines():
        n, g, d = line.split("|")
        table.append({"name": n, "gen": g == "true", "deps": [x for x in d.split(",") if x]})
    return table


def r01(ck):
    binary = common.build_libmgen()
    ck.selftest()
    for prop in ("safety", "liveness"):
        if prop == "safety":
            ck.tlc("ResolverMC", {"K": 3}, invariants=["Outcome", "NothingExcluded", "OnlyReachable", "ReachableByPaths"],
                   stage="mc")
        else:
            ck.tlc("ResolverMC", {"K": 2 if not ck.thorough else 3}, spec="Spec", properties=["Stops"], stage="live")
    table = read_table(ck, binary)
    names = [t["name"] for t in table]
    # the text of each entry on its own
    def piece(job):
        n, bits = job
        others = ",".join(x for x in names if x != n)
        return run_cli(binary, ["-f", n, "-x", others, "--num-bits", str(bits)])
    jobs = [(n, b) for n in names for b in (32, 64)]
    for (n, b), (rc, out, err) in zip(jobs, par(piece, jobs)):
        t = table[names.index(n)]
        t["text%d" % b] = spaced(out) if rc == 0 else "failed"
    tf = ck.path("table")
    with open(tf, "w") as f:
        for t in table:
            f.write(json.dumps(t) + "\n")
    n = ck.size(4000, 40000)
    consts = {"Seed": ck.seed, "N": n, "TableFile": tf}
    ck.tlc("ResolverGen", dict(consts, ScenFile=ck.path("scen"), Chunk=200))
    scen = sorted((l.rstrip("\n").split("\t", 1) for l in open(ck.path("scen"))), key=lambda x: int(x[0]))
    rc, out, err = run_cli(binary, ["-f", "verif-resolve"], stdin="".join(s[1] + "\n" for s in scen).encode())
    answers = out.split("\n")[:-1]
    recs, lines = [], []

    def add(rec, text):
        rec["id"] = len(recs) + 1
        recs.append(json.dumps(rec))
        lines.append("%d\t%s" % (rec["id"], text))

    for t in table:
        add({"kind": "table", "name": t["name"], "deps": t["deps"]}, "table entry " + t["name"])
    for k, s in enumerate(scen if ck.hooked else []):
        got = answers[k] if k < len(answers) else "crashed"
        add({"kind": "resolve", "req": int(s[0]), "got": [x for x in got.split(",") if x]}, "resolve " + s[1])
    step = max(1, len(scen) // ck.size(120 if ck.hooked else 600, 600))
    cli = [(s, 32 if j % 2 else 64) for j, s in enumerate(scen[::step] + scen[-ck.size(60, 400):]) if s[1].split("|")[0]]

    def go(job):
        s, bits = job
        req, exc = s[1].split("|")
        return run_cli(binary, ["--num-bits", str(bits), "--functions=" + req, "--exclude=" + exc])
    for (s, bits), (rc, out, err) in zip(cli, par(go, cli)):
        add({"kind": "cli", "req": int(s[0]), "bits": bits, "rc": rc, "out": spaced(out)}, "cli %d %s" % (bits, s[1]))

    def corrupt(r):
        if r["kind"] == "table":
            r["deps"] = r["deps"] + ["corrupted"]
        elif r["kind"] == "resolve":
            r["got"] = r["got"] + ["corrupted"]
        else:
            r["out"] += "corrupted"
        return r
    ck.validate("ResolverTrace", consts, lines, recs, corrupt)
    ck.notes["cli_runs"] = len(cli) + len(jobs)
    return ck.finish("model_checking", RULE, ["the text of an entry on its own is what it contributes to a longer request"])


def compile_rust(src, out, width=None, test=False):
    """Does rustc accept the text as a crate of its own?"""
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "lib_under_test", "--emit=metadata",
           "-Awarnings", "-o", out, src]
    if test:
        cmd.insert(1, "--test")
    p = common.sh(cmd, check=False, cwd=os.path.dirname(out))
    return p.returncode == 0, p.stderr


def compile_c(src, out):
    """Does gcc accept the text, with nothing left undefined?"""
    p = common.sh(["gcc", "-std=gnu11", "-w", "-shared", "-fPIC", "-O0", "-Wl,-z,defs", "-o", out, src, "-lm"],
                  check=False, cwd=os.path.dirname(out))
    return p.returncode == 0, p.stderr


def write_table(ck, table):
    tf = ck.path("table")
    with open(tf, "w") as f:
        for t in table:
            f.write(json.dumps(t) + "\n")
    return tf


def r02(ck):
    binary = common.build_libmgen()
    harness = common.build_harness()
    ck.selftest()
    table = read_table(ck, binary)
    n = ck.size(60, 500)
    consts = {"Seed": ck.seed, "N": n, "TableFile": write_table(ck, table), "ScenFile": ck.path("scen")}
    ck.tlc("Library", dict(consts, ObsFile="", BadFile=""), init="GenInit", next="GenNext", stage="gen")
    scen = [l.rstrip("\n").split("\t") for l in open(ck.path("scen"))]
    jobs = [(int(k), req, lang, bits) for k, req in scen for lang in ("rust", "tests", "c") for bits in (32, 64)]

    def go(job):
        k, req, lang, bits = job
        rc, out, err = run_cli(binary, ["--functions=" + req, "--language", "c" if lang == "c" else "rust", "--num-bits", str(bits)]
                               + ["--generate-tests"] * (lang == "tests") + ["--generate-plots"] * (lang == "tests" and k % 2))
        base = ck.path("lib_%d_%s_%d" % (k, lang, bits))
        src = base + (".c" if lang == "c" else ".rs")
        with open(src, "w") as f:
            f.write(out)
        ok, msg = compile_c(src, base + ".out") if lang == "c" else compile_rust(src, base + ".out", test=lang == "tests")
        if os.path.exists(base + ".out"):
            os.remove(base + ".out")
        return {"rc": rc, "compiles": ok, "message": msg[:600], "src": src}
    res = par(go, jobs)
    with open(ck.path("items.scen"), "w") as f:
        for j, (job, r) in enumerate(zip(jobs, res)):
            f.write("%d\titems\t%s\n" % (j + 1, r["src"]) if job[2] != "c" else "")
    _, items = ck.replay(ck.path("items.scen"), ck.path("items.obs"), binary=harness)
    items = {json.loads(l)["id"]: json.loads(l) for l in items}
    recs, lines = [], []
    for j, ((k, req, lang, bits), r) in enumerate(zip(jobs, res)):
        it = items.get(j + 1, {"st": "none", "items": []})
        recs.append(json.dumps({"id": j + 1, "req": k, "language": lang, "bits": bits, "rc": r["rc"], "st": it["st"],
                                "items": it.get("items", []), "compiles": r["compiles"], "message": r["message"]}))
        lines.append("%d\t%s %d %s" % (j + 1, lang, bits, req))

    flip = [0]

    def corrupt(r):
        flip[0] += 1
        if r["language"] != "c" and r["items"] and flip[0] % 2:
            r["items"].append(r["items"][0])
        elif r["language"] != "c" or "sin_cos" not in json.dumps(lines[r["id"] - 1]):
            r["compiles"] = False
        else:
            return None
        return r
    ck.validate("Library", consts, lines, recs, corrupt)
    return ck.finish("model_checking",
                     "Every entry of the table on its own and random lists of entries, at both widths, in Rust, in Rust with tests (plotting in every other) and in C; "
                     "rustc and gcc -z defs are run on each.",
                     ["rustc and gcc decide whether a text compiles"])


def r03(ck):
    import hashlib
    import shutil
    binary = common.build_libmgen()
    harness = common.build_harness()
    ck.selftest()
    table = read_table(ck, binary)
    n = ck.size(120, 800)
    consts = {"Seed": ck.seed, "N": n}
    ck.tlc("CliGen", dict(consts, ScenFile=ck.path("scen")))
    lines = [l.rstrip("\n") for l in open(ck.path("scen"))]
    store = {}

    def digest(t):
        if t == "":
            return ""
        d = hashlib.sha256(t.encode()).hexdigest()[:24]
        store[d] = t
        return d

    def go(line):
        f = line.split("\t")
        d = ck.path("h" + f[0])
        os.makedirs(d)
        runs = []
        for r in f[2:]:
            fs, ex, bits, typ, lang, out = r.split("|")
            args = ["--functions=" + fs, "--exclude=" + ex, "--num-bits", bits, "--number-type", typ, "--language", lang]
            if out:
                args += ["-o", out]
            rc, stdout, err = run_cli(binary, args, cwd=d)
            files = [{"name": x, "text": digest(open(os.path.join(d, x)).read())} for x in sorted(os.listdir(d))]
            mine = [x["text"] for x in files if x["name"] == out]
            runs.append({"rc": rc, "stdout": digest(stdout), "files": files, "lang": lang,
                         "text": mine[0] if mine else digest(stdout)})
        shutil.rmtree(d)
        return {"id": int(f[0]), "runs": runs}
    recs = par(go, lines)
    # is each distinct text code of its language?
    langs = {}
    for r in recs:
        for x in r["runs"]:
            if x["text"]:
                langs[x["text"]] = x["lang"]
    ok = {}
    todo = sorted(langs)

    def is_code(d):
        src = ck.path("t_%s%s" % (d, ".c" if langs[d] == "c" else ".rs"))
        with open(src, "w") as f:
            f.write(store[d])
        if langs[d] == "c":
            return common.sh(["gcc", "-std=gnu11", "-w", "-fsyntax-only", src], check=False).returncode == 0
        with open(src + ".scen", "w") as f:
            f.write("1\titems\t%s\n" % src)
        common.sh([harness, src + ".scen", src + ".obs"])
        return json.loads(open(src + ".obs").read())["st"] == "ok"
    for d, v in zip(todo, par(is_code, todo)):
        ok[d] = v
    for r in recs:
        for x in r["runs"]:
            x["code"] = ok.get(x["text"], True)
            del x["lang"]

    def corrupt(r):
        x = r["runs"][0]
        x["stdout"] = "corrupted"
        x["files"] = [{"name": "z", "text": "corrupted"}]
        return r
    ck.validate("CliTrace", dict(consts, TableFile=write_table(ck, table)), lines, [json.dumps(r) for r in recs], corrupt)
    return ck.finish("model_checking",
                     "Histories of five runs in one directory: the same request permuted, repeated, with unknown names, other "
                     "widths, unknown languages, empty requests, to files and to standard output.",
                     ["the generator reads no state outside its arguments but may do so in the directory it runs in"])


CHECKS = {"R01": r01, "R02": r02, "R03": r03}
