"""C01, C02, S01: translation to C and to portable SIMD (spec/Program.tla, spec/Programs.tla)."""
import concurrent.futures
import copy
import json
import os
import re
import subprocess

import common

C_DRIVER = r"""
int printf(const char *, ...);
#define a_f32(x) ({ union { unsigned int u; float f; } q_; q_.u = (unsigned int)(x); q_.f; })
#define a_f64(x) ({ union { unsigned long long u; double f; } q_; q_.u = (x); q_.f; })
static void r_f32(float x) { union { unsigned int u; float f; } q; q.f = x; if (x != x) printf("nan "); else printf("%u ", q.u); }
static void r_f64(double x) { union { unsigned long long u; double f; } q; q.f = x; if (x != x) printf("nan "); else printf("%llu ", q.u); }
static void r_u32(unsigned long long x) { printf("%llu ", x); }
static void r_u64(unsigned long long x) { printf("%llu ", x); }
static void r_usize(unsigned long long x) { printf("%llu ", x); }
static void r_i32(long long x) { printf("%lld ", x); }
static void r_i64(long long x) { printf("%lld ", x); }
static void r_bool(long long x) { printf("%lld ", x); }
"""

C_MAIN = r"""
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
%s
static void one(int k, void (*f)(void)) {
    fflush(stdout);
    int p = fork();
    if (p == 0) { alarm(10); printf("%%d: ", k); f(); printf("end\n"); fflush(stdout); _exit(0); }
    int st; waitpid(p, &st, 0);
}
int main(void) {
%s
    return 0;
}
"""

R_DRIVER = """
#![allow(warnings, unconditional_panic, arithmetic_overflow, overflowing_literals)]
fn r_f32(x: f32) { if x.is_nan() { print!("nan ") } else { print!("{} ", x.to_bits()) } }
fn r_f64(x: f64) { if x.is_nan() { print!("nan ") } else { print!("{} ", x.to_bits()) } }
fn r_u32(x: u32) { print!("{} ", x) }
fn r_u64(x: u64) { print!("{} ", x) }
fn r_usize(x: usize) { print!("{} ", x) }
fn r_i32(x: i32) { print!("{} ", x) }
fn r_i64(x: i64) { print!("{} ", x) }
fn r_bool(x: bool) { print!("{} ", x as u8) }
"""


def par(f, items, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))


def quiet(cmd, timeout=300):
    """Exit code of a command (124 when it takes too long)."""
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""


def results(text):
    """The finished lines of a driver: number to results."""
    out = {}
    for line in text.splitlines():
        m = re.match(r"(\d+): (.*)end$", line)
        if m:
            out[int(m.group(1))] = m.group(2).split()
    return out


def run_c(ck, units, tag=""):
    """units: number to (C text, calls). What every call returned, or why there is no answer."""
    d = ck.path("c" + tag)
    os.makedirs(d)

    def build(k):
        text, calls = units[k]
        src = os.path.join(d, "u%d.c" % k)
        with open(src, "w") as f:
            f.write(text + C_DRIVER + "void run_%d(void) { %s }\n" % (k, calls))
        rc, err = quiet(["gcc", "-O0", "-ffp-contract=off", "-w", "-fno-builtin-printf", "-c", src, "-o", src[:-2] + ".o"], 60)
        return rc == 0, err
    names = sorted(units)
    built = dict(zip(names, par(build, names)))
    good = [k for k in names if built[k][0]]
    answers = {k: ("the C does not compile", built[k][1][:800]) for k in names if not built[k][0]}

    def link(part):
        exe = os.path.join(d, "run%d" % part[0])
        with open(exe + ".main.c", "w") as f:
            f.write(C_MAIN % ("".join("void run_%d(void);\n" % k for k in part), "".join("    one(%d, run_%d);\n" % (k, k) for k in part)))
        rc, err = quiet(["gcc", "-O0", "-w", "-o", exe, exe + ".main.c"] + [os.path.join(d, "u%d.o" % k) for k in part] + ["-lm"])
        if rc != 0:
            if len(part) == 1:
                answers[part[0]] = ("the C does not link", err[:800])
                return {}
            mid = len(part) // 2
            r = link(part[:mid])
            r.update(link(part[mid:]))
            return r
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        return results(p.stdout.decode(errors="replace"))
    parts = [good[j:j + 100] for j in range(0, len(good), 100)]
    for r in par(link, parts):
        for k, v in r.items():
            answers[k] = ("ok", v)
    for k in names:
        answers.setdefault(k, ("the C program ended early", ""))
    return answers


def run_rust(ck, units, tag="", chunk=40):
    """units: number to (Rust items, calls). The results, by number; Rust that does not compile is a mistake of the generator."""
    d = ck.path("rust" + tag)
    os.makedirs(d)
    names = sorted(units)

    def go(part):
        exe = os.path.join(d, "r%d" % part[0])
        with open(exe + ".rs", "w") as f:
            f.write(R_DRIVER)
            for k in part:
                f.write("mod p%d { use super::*; %s pub fn run() { %s } }\n" % (k, units[k][0], units[k][1]))
            f.write("fn main() {\n" + "".join('    print!("%d: "); p%d::run(); println!("end");\n' % (k, k) for k in part) + "}\n")
        rc, err = quiet(["rustc", "--edition", "2021", "-C", "opt-level=0", "-C", "overflow-checks=on", "-o", exe, exe + ".rs"])
        if rc != 0:
            raise common.ToolError("a generated program is no Rust: " + err[:3000])
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0:
            raise common.ToolError("a generated program has no value: " + p.stderr.decode(errors="replace")[:2000])
        return results(p.stdout.decode())
    out = {}
    for r in par(go, [names[j:j + chunk] for j in range(0, len(names), chunk)]):
        out.update(r)
    return out


def corrupt(rec):
    rec = copy.deepcopy(rec)
    if rec.get("st") != "ok" or not rec["c"]:
        return None
    for n in range(len(rec["c"])):
        v = rec["c"][n]
        rec["c"][n] = "12345" if v == "nan" else str(int(v) + 9)
    return rec


def judge(ck, trace, consts, lines, recs, corrupt, **kw):
    """Validation; a disagreement between the specification and rustc is a mistake in the specification."""
    ck.validate(trace, consts, lines, [json.dumps(r) for r in recs], corrupt, **kw)
    wrong = [b for b in ck.bads if b[1].startswith("oracle")]
    if wrong:
        raise common.ToolError("specification and rustc disagree: %s\n%s" % (wrong[0][1], wrong[0][2][:3000]))


def translated(ck, count, gen, trace, every, name=""):
    """Generated files, translated to C, compiled and run; some of them by rustc too."""
    scen, callf = ck.path(name + "scen"), ck.path(name + "calls")
    consts = {"Seed": ck.seed, "Count": count, "Chunk": 24}
    ck.tlc(gen, dict(consts, ScenFile=scen, CallFile=callf))
    calls = {}
    for l in open(callf):
        k, c, r = l.rstrip("\n").split("\t")
        calls[int(k)] = (c, r)
    lines, got = ck.replay(scen, ck.path(name + "obs"), limit=20)
    got = {g["id"]: g for g in map(json.loads, got)}
    src = {int(l.split("\t", 1)[0]): l.rstrip("\n").split("\t")[4] for l in lines}
    answers = run_c(ck, {k: (g["text"], calls[k][0]) for k, g in got.items() if g["st"] == "ok"}, name)
    rust = run_rust(ck, {k: (src[k], calls[k][1]) for k in sorted(src) if k % every == 0}, name)
    recs = []
    for l in lines:
        k = int(l.split("\t", 1)[0])
        st, res = answers.get(k, ("no translation: " + got[k]["st"], []))
        recs.append({"id": k, "st": st, "c": res if st == "ok" else [], "rust": rust.get(k, []), "why": "" if st == "ok" else res})
    ck.notes["programs_run_by_rustc"] = ck.notes.get("programs_run_by_rustc", 0) + len(rust)
    judge(ck, trace, consts, lines, recs, corrupt, name=name)


def c01(ck):
    ck.selftest()
    translated(ck, ck.size(1200, 12000), "ProgramsGen", "ProgramsTrace", ck.size(6, 12))
    translated(ck, ck.size(384, 3840), "CallsGen", "CallsTrace", ck.size(4, 12), "lib")
    return ck.finish("model_checking", RULE_C, ["gcc -O0 -ffp-contract=off on x86-64 computes IEEE arithmetic as C says",
                                                "the C library's functions are within 4 units in the last place"])


RULE_C = ("Random files of constants, aliases and functions over 32- or 64-bit numbers and truth values; each function called with chosen arguments.")

def unit_simd(k, text, trait, calls):
    return ("mod s%d { pub use mock as simd; pub use mock::StdFloat; use mock::Simd; use super::*;\n"
            "pub trait StdLibm: Sized + Copy { type IntType; type UintType; %s }\n"
            "mod code {\n%s\n}\npub fn run() { %s } }\n" % (k, trait, text, calls))


def run_simd(ck, units, tag="", chunk=25):
    """units: number to (translated text, trait, calls). What every call returned in every lane, or why there is no answer."""
    d = ck.path("simd" + tag)
    os.makedirs(d)
    lib = os.path.join(d, "libmock.rlib")
    rc, err = quiet(["rustc", "--edition", "2021", "-C", "opt-level=0", "--crate-type", "lib", "--crate-name", "mock", "-o", lib,
                     os.path.join(common.VERIF, "harness", "mock", "mock.rs")])
    if rc != 0:
        raise common.ToolError("the vectors do not compile: " + err[:2000])
    answers, broken = {}, []

    def go(part):
        if len(broken) > 24:
            return
        exe = os.path.join(d, "s%d_%d" % (part[0], len(part)))
        with open(exe + ".rs", "w") as f:
            f.write(R_DRIVER)
            for k in part:
                f.write(unit_simd(k, *units[k]))
            f.write("fn main() {\n" + "".join('    print!("%d: "); s%d::run(); println!("end");\n' % (k, k) for k in part) + "}\n")
        rc, err = quiet(["rustc", "--edition", "2021", "-C", "opt-level=0", "--extern", "mock=" + lib, "-o", exe, exe + ".rs"])
        if rc != 0:
            if len(part) == 1:
                answers[part[0]] = ("the translation does not compile", err[:1500])
                broken.append(part[0])
                return
            for half in (part[:len(part) // 2], part[len(part) // 2:]):
                go(half)
            return
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        for k, v in results(p.stdout.decode(errors="replace")).items():
            answers[k] = ("ok", v)
        for k in part:
            answers.setdefault(k, ("the translated program ended early", p.stderr.decode(errors="replace")[:500]))
    names = sorted(units)
    par(go, [names[j:j + chunk] for j in range(0, len(names), chunk)])
    return answers


def corrupt_lane(rec):
    rec = copy.deepcopy(rec)
    if rec.get("st") != "ok" or not rec["r"]:
        return None
    v = rec["r"][-1]
    rec["r"][-1] = "12345" if v == "nan" else str(int(v) + 9)
    return rec


def s01(ck):
    ck.selftest()
    scen, callf = ck.path("scen"), ck.path("calls")
    consts = {"Seed": ck.seed, "Count": ck.size(1000, 12000), "Chunk": 24}
    ck.tlc("LanesGen", dict(consts, ScenFile=scen, CallFile=callf))
    calls = {}
    for l in open(callf):
        k, trait, vectors, ones = l.rstrip("\n").split("\t")
        calls[int(k)] = (trait, vectors, ones)
    lines, got = ck.replay(scen, ck.path("obs"), limit=20)
    got = {g["id"]: g for g in map(json.loads, got)}
    src = {int(l.split("\t", 1)[0]): l.rstrip("\n").split("\t")[3] for l in lines}
    answers = run_simd(ck, {k: (g["text"],) + calls[k][:2] for k, g in got.items() if g["st"] == "ok"})
    every = ck.size(5, 12)
    rust = run_rust(ck, {k: (src[k], calls[k][2]) for k in sorted(src) if k % every == 0})
    recs, kept = [], []
    for l in lines:
        k = int(l.split("\t", 1)[0])
        if got[k]["st"] == "ok" and k not in answers:
            continue
        st, res = answers.get(k, ("no translation: " + got[k]["st"], []))
        recs.append({"id": k, "st": st, "r": res if st == "ok" else [], "rust": rust.get(k, []), "why": "" if st == "ok" else res})
        kept.append(l)
    ck.notes["programs_run_by_rustc"] = len(rust)
    judge(ck, "LanesTrace", consts, kept, recs, corrupt_lane)
    return ck.finish("model_checking", RULE_S, ["the stand-in for portable SIMD (harness/mock/mock.rs) applies the scalar operations of rustc to every lane"])


RULE_S = ("Random files of constants, aliases and functions over numbers of 32 or 64 bits in the translated subset; each function applied to "
          "vectors of 1, 2, 4 or 8 lanes that take different branches.")

def c02(ck):
    import generated
    return generated.check(ck)


CHECKS = {"C01": c01, "C02": c02, "S01": s01, "S02": c02}
