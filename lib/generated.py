"""G01-G05, C02: the generated libraries (spec/MathLib.tla and the modules over it)."""
import copy
import json
import os
import re
import struct
import subprocess

import common
import resolver
import translation

# argument kinds: f float, i signed integer of the width, u usize
FUNCS = {
    "round": "f", "recip_approx": "f", "sqrt_approx": "f", "cbrt_approx": "f", "nextafter": "f", "negate_on_odd": "ff",
    "sinh": "f", "cosh": "f", "tanh": "f", "asinh": "f", "acosh": "f", "atanh": "f", "asin": "f", "acos": "f", "atan": "f",
    "atan2": "ff", "exp2": "f", "exp": "f", "exp_m1": "f", "log2": "f", "ln_1p": "f", "ln": "f", "log10": "f", "log": "ff",
    "powf": "ff", "powi": "fi", "sqrt": "f", "cbrt": "f", "recip": "f", "hypot": "ff", "runif": "uff", "dnorm": "fff",
    "qnorm": "fff", "rnorm": "uff", "sin": "f", "cos": "f", "tan": "f", "sin_cos": "f"}
# what has no C form: a pair
NO_C = {"sin_cos"}
CONSTS = ["LOG2_SHIFT", "LOG2_OFFSET", "NAN", "INFINITY", "MIN_POSITIVE", "ONE_MASK", "ONE_BITS", "EXP2_ONE", "EXP2_SCALE", "EXP2_MIN",
          "EXP2_MAX", "ONE_THIRD", "TWO_THIRDS", "PI", "PI_BY_2", "TAN_PI_BY_8", "PI_BY_8", "LOG2_E", "RECIP_LOG2_E", "RECIP_LOG2_10",
          "RECIP_PI", "RECIP_2PI", "SQRT_RECIP_2PI"]
INT_CONSTS = {"LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS"}

C_MAIN = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef %(uty)s ds_uty; typedef %(fty)s ds_fty;
static ds_fty ds_num(const char *s) { ds_uty u = (ds_uty)strtoull(s, 0, 10); ds_fty f; memcpy(&f, &u, sizeof f); return f; }
static void ds_show(ds_fty f) {
    ds_uty u; memcpy(&u, &f, sizeof u);
    if (f != f) printf("nan\n"); else printf("%%llu\n", (unsigned long long)u);
}
int main(void) {
    static char line[4096];
    char *a[8];
    while (fgets(line, sizeof line, stdin)) {
        int n = 0;
        for (char *t = strtok(line, " \n"); t && n < 8; t = strtok(0, " \n")) a[n++] = t;
        printf("%%s\t", a[0]);
        fflush(stdout);
        %(arms)s printf("none\n");
        fflush(stdout);
    }
    return 0;
}
"""

R_TOP = """
#![allow(warnings, unconditional_panic, arithmetic_overflow, overflowing_literals)]
use std::io::{BufRead, Write};
pub trait Unfused { fn unfused(self, a: Self, b: Self) -> Self; }
impl Unfused for f32 { fn unfused(self, a: f32, b: f32) -> f32 { self * a + b } }
impl Unfused for f64 { fn unfused(self, a: f64, b: f64) -> f64 { self * a + b } }
pub trait Bits { fn show(self) -> String; }
impl Bits for f32 { fn show(self) -> String { if self.is_nan() { "nan".to_string() } else { self.to_bits().to_string() } } }
impl Bits for f64 { fn show(self) -> String { if self.is_nan() { "nan".to_string() } else { self.to_bits().to_string() } } }
impl<T: Bits> Bits for (T, T) { fn show(self) -> String { self.0.show() + " " + &self.1.show() } }
"""

R_MAIN = """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        print!("{}\\t", w[0]);
        std::io::stdout().flush().unwrap();
        let r = std::panic::catch_unwind(|| lib::call(w[1], &w[2..]));
        println!("{}", r.unwrap_or("panic".to_string()));
    }
}
"""


def rust_program(text, bits, unfused):
    """The library with a dispatcher: lines of a number, a name and argument bits to result bits."""
    if unfused:
        text = re.sub(r"\bmul_add\b", "unfused", text)
    arms = []
    for f, args in FUNCS.items():
        if not re.search(r"\bfn %s\b" % f, text):
            continue
        conv = {"f": "f%d::from_bits(a[%%d].parse().unwrap())" % bits, "i": "a[%%d].parse::<i%d>().unwrap()" % bits,
                "u": "a[%d].parse::<usize>().unwrap()"}
        arms.append('"%s" => %s(%s).show(),' % (f, f, ", ".join(conv[k] % n for n, k in enumerate(args))))
    for c in CONSTS:
        if re.search(r"\bconst %s\b" % c, text):
            arms.append('"%s" => %s,' % (c, "%s.to_string()" % c if c in INT_CONSTS else "%s.show()" % c))
    return (R_TOP + "#[allow(warnings)] pub mod lib { use crate::{Bits, Unfused};\n%s\npub fn call(f: &str, a: &[&str]) -> String { "
            'match f { %s _ => "none".to_string() } } }\n' % (text, "".join(arms)) + R_MAIN)


# what a vector has itself
OF_VECTORS = {"recip"}
FILE_METHODS = [f for f in FUNCS if f not in OF_VECTORS]

S_TOP = """
#![allow(warnings)]
use std::collections::HashMap;
use std::io::{BufRead, Write};
extern crate mock;
use mock::Simd;
pub mod simd { pub use mock::*; }
pub trait StdFloat { fn mul_add(self, a: Self, b: Self) -> Self; fn floor(self) -> Self; fn ceil(self) -> Self; fn trunc(self) -> Self; }
impl<const N: usize> StdFloat for Simd<%(fty)s, N> {
    fn mul_add(self, a: Self, b: Self) -> Self { mock::StdFloat::mul_add(self, a, b) }
    fn floor(self) -> Self { mock::StdFloat::floor(self) }
    fn ceil(self) -> Self { mock::StdFloat::ceil(self) }
    fn trunc(self) -> Self { mock::StdFloat::trunc(self) }
}
pub trait StdLibm: Sized + Copy { type IntType; type UintType; %(trait)s }
pub mod code {
%(text)s
}
type V = Simd<%(fty)s, 4>;
fn show(x: %(fty)s) -> String { if x.is_nan() { "nan".to_string() } else { x.to_bits().to_string() } }
fn lanes(v: V) -> [String; 4] { v.to_array().map(show) }
fn pairs(v: (V, V)) -> [String; 4] { let (a, b) = (lanes(v.0), lanes(v.1)); std::array::from_fn(|j| a[j].clone() + " " + &b[j]) }
fn f(h: &[Vec<String>; 4], a: usize) -> V { Simd::from_array(std::array::from_fn(|j| <%(fty)s>::from_bits(h[j][a].parse().unwrap()))) }
fn i(h: &[Vec<String>; 4], a: usize) -> Simd<%(ity)s, 4> { Simd::from_array(std::array::from_fn(|j| h[j][a].parse().unwrap())) }
fn call(name: &str, h: &[Vec<String>; 4]) -> [String; 4] {
    match name { %(arms)s _ => std::array::from_fn(|_| "none".to_string()) }
}
// Every call has one lane of four; the others are earlier calls, which must give what they gave.
fn main() {
    let mut before: HashMap<String, Vec<(Vec<String>, String)>> = HashMap::new();
    for (n, line) in std::io::stdin().lock().lines().enumerate() {
        let line = line.unwrap();
        let w: Vec<String> = line.split_whitespace().map(|x| x.to_string()).collect();
        print!("{}\\t", w[0]);
        std::io::stdout().flush().unwrap();
        let past = before.entry(w[1].clone()).or_default();
        let mine = n / 3 %% 4;
        let args = w[2..].to_vec();
        let at = |j: usize| if j == mine || past.is_empty() { None } else { Some(&past[(n + j) %% past.len()]) };
        let h: [Vec<String>; 4] = std::array::from_fn(|j| at(j).map_or(args.clone(), |p| p.0.clone()));
        let r = call(&w[1], &h);
        let wrong = (0..4).any(|j| at(j).map_or(r[mine].clone(), |p| p.1.clone()) != r[j]);
        println!("{}", if wrong { "lanes" } else { &r[mine] });
        let m = r[mine].clone();
        if past.len() < 16 { past.push((args, m)); } else { past[n %% 16] = (args, m); }
    }
}
"""


def simd_program(text, bits):
    have = [f for f in FUNCS if re.search(r"\bfn %s\b" % f, text)]
    kind = {"f": "Self", "i": "Self::IntType"}
    trait, arms = [], []
    for f in have:
        pair = f in NO_C
        args = FUNCS[f]
        trait.append("fn %s(self%s) -> %s;" % (f, "".join(", a%d: %s" % (n, kind[k]) for n, k in enumerate(args[1:])), "(Self, Self)" if pair else "Self"))
        arms.append('"%s" => %s(StdLibm::%s(%s)),' % (f, "pairs" if pair else "lanes", f, ", ".join("%s(h, %d)" % (k, n) for n, k in enumerate(args))))
    # functions of the library that no specification names: whatever they take
    seen = set(FUNCS)
    for m in re.finditer(r"\bfn\s+(\w+)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*(->\s*[^{;]+)?\{", text):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            trait.append("fn %s(%s) %s;" % (m.group(1), m.group(2), m.group(3) or ""))
    return S_TOP % {"fty": "f%d" % bits, "ity": "i%d" % bits, "trait": " ".join(trait), "arms": " ".join(arms), "text": text}


def own_methods(text):
    """The library with methods of its own functions, as the vectors have."""
    used = []

    def own(m):
        if m.group(1) not in FILE_METHODS or not re.search(r"\bfn %s\b" % m.group(1), text):
            return m.group(0)
        used.append(m.group(1))
        return ".file_%s(" % m.group(1)
    text2 = re.sub(r"\.\s*(\w+)\s*\(", own, text)
    arg = {"f": "fty", "i": "ity"}
    sig = {f: "fn file_%s(self%s) -> fty" % (f, "".join(", a%d: %s" % (n, arg[k]) for n, k in enumerate(FUNCS[f][1:]))) for f in set(used)}
    return (text2 + "\ntrait File { %s }\nimpl File for fty { %s }\n"
            % (" ".join(sig[f] + ";" for f in sig),
               " ".join("%s { %s(self%s) }" % (sig[f], f, "".join(", a%d" % n for n in range(len(FUNCS[f]) - 1))) for f in sig)))


def c_program(text, bits):
    arms = []
    for f, args in FUNCS.items():
        m = re.search(r"\b(\w*?_?%s)\(" % f, text) if re.search(r"\bds%d_%s\(" % (bits, f), text) else None
        if not m:
            continue
        conv = {"f": "ds_num(a[%d])", "i": "strtoll(a[%d], 0, 10)", "u": "strtoull(a[%d], 0, 10)"}
        arms.append('if (!strcmp(a[1], "%s")) ds_show(ds%d_%s(%s)); else'
                    % (f, bits, f, ", ".join(conv[k] % (n + 2) for n, k in enumerate(args))))
    for c in CONSTS:
        if re.search(r"\bconst \w+ %s\b" % c, text):
            show = 'printf("%%lld\\n", (long long)%s);' % c if c in INT_CONSTS else "ds_show(%s);" % c
            arms.append('if (!strcmp(a[1], "%s")) %s else' % (c, show))
    return text + C_MAIN % {"uty": "unsigned int" if bits == 32 else "unsigned long long", "fty": "float" if bits == 32 else "double",
                            "arms": "\n".join(arms)}


ALL = ["all"] + ["round", "recip_approx", "sqrt_approx", "cbrt_approx", "nextafter", "negate_on_odd", "hypot", "runif", "sin_cos"]
KINDS = {"r": ("rust", False), "h": ("rust", False), "n": ("rust", True), "c": ("c", False), "d": ("c", False),
         "s": ("portable-simd", False), "t": ("portable-simd", False), "m": ("rust", False)}


def build_library(ck, binary, name):
    """The generated library r32, c64... as a program; None and the complaint when there is none."""
    language, unfused = KINDS[name[0]]
    bits = int(name[1:])
    args = ["-f", ",".join(ALL), "--language", language, "--num-bits", str(bits)]
    if name[0] in "hdt":
        args += ["--number-type", "hex"]
    if language == "c":
        args += ["--exclude", ",".join(NO_C), "--function-prefix", "ds%d_" % bits]
    if name[0] in "stm":
        args += ["--exclude", "runif,rnorm"]
    rc, text, err = resolver.run_cli(binary, args)
    if rc != 0:
        return None, "libmgen failed: " + err[:1500]
    src = ck.path(name + (".c" if language == "c" else ".rs"))
    with open(src, "w") as f:
        f.write(c_program(text, bits) if language == "c" else simd_program(text, bits) if language == "portable-simd" else
                rust_program(own_methods(text) if name[0] == "m" else text, bits, unfused))
    cmd = (["rustc", "--edition", "2021", "-C", "opt-level=1", "-L", ck.dir, "-o", ck.path(name), src] if language != "c" else
           ["gcc", "-O0", "-w", "-ffp-contract=off", "-o", ck.path(name), src, "-lm"])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return (ck.path(name), "") if p.returncode == 0 else (None, p.stderr.decode(errors="replace")[:3000])


def answers(exe, calls, limit=120):
    """Results of the calls [(key, text)], in order; a call that ends the program, or never ends, has died."""
    out = {}
    while calls:
        try:
            p = subprocess.run([exe], input="".join("%d %s\n" % c for c in calls).encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=limit)
            text = p.stdout
        except subprocess.TimeoutExpired as e:
            text = e.stdout or b""
        for l in text.decode(errors="replace").split("\n"):
            k, tab, v = l.partition("\t")
            if v:
                out[int(k)] = v
        left = [c for c in calls if c[0] not in out]
        if left:
            out[left[0][0]] = "died"
        calls = left[1:]
        limit = 10
        if sum(v == "died" for v in out.values()) > 6:
            out.update({c[0]: "died" for c in calls})
            break
    return out


def corrupt(rec):
    """Another last place where results are exact, otherwise no number, or no result where NaN may be right."""
    rec = copy.deepcopy(rec)
    v = rec["r"][0]
    exact = rec["tag"] in ("same", "lanes", "constant", "nextafter", "negate_on_odd")
    rec["r"][0] = ("none" if rec["tag"] == "value" else "1" if v == "nan" else str(int(v) + 7) if exact and v.isdigit() else "nan")
    return rec


def run(ck, modes):
    ck.selftest()
    ck.tlc("FloatTest", init=None)
    ck.tlc("RealFnTest", init=None)
    binary = common.build_libmgen()
    names = sorted({k + b for k in {"C02": "cdnr", "S02": "mst"}.get(ck.pid, "cdhr") for b in ("32", "64")})
    if ck.pid == "S02":
        common.sh(["rustc", "--edition", "2021", "-C", "opt-level=1", "--crate-type", "lib", "--crate-name", "mock", "-o", ck.path("libmock.rlib"),
                   os.path.join(common.VERIF, "harness", "mock", "mock.rs")])
    built = dict(zip(names, resolver.par(lambda n: build_library(ck, binary, n), names)))
    for n in names:
        if built[n][0] is None:
            ck.bad("library " + n, "a generated library does not compile", built[n][1])
    for mode, count in modes:
        consts = {"Seed": ck.seed, "Mode": mode, "Count": count, "Chunk": 24}
        ck.tlc("MathGen", dict(consts, ScenFile=ck.path(mode + "scen")), stage=mode + "MathGen")
        lines = sorted(open(ck.path(mode + "scen")), key=lambda l: int(l.split("\t", 1)[0]))
        jobs, parts, n = {k: [] for k in names}, [], 0
        for l in lines:
            k, tag, calls = l.rstrip("\n").split("\t")
            mine = []
            for c in calls.split(";"):
                lib, rest = c.split(" ", 1)
                jobs[lib].append((n, rest))
                mine.append(n)
                n += 1
            parts.append((int(k), tag, mine))
        res = {}
        for r in resolver.par(lambda k: answers(built[k][0], jobs[k]) if built[k][0] else {}, names):
            res.update(r)
        recs = [{"id": k, "tag": tag, "r": [w for c in mine for w in res.get(c, "none").split()]} for k, tag, mine in parts]
        translation.judge(ck, "MathTrace", consts, lines, recs, corrupt, name=mode,
                          key=lambda scen, got, step, why: scen.split("\t")[2] + " | " + why)
        ck.notes[mode + "_calls"] = n
    return ck.finish("model_checking", RULE[ck.pid], ASSUME)


ASSUME = ["gcc -O0 -ffp-contract=off and rustc on x86-64 compute IEEE arithmetic; libm's sqrt, copysign, fabs, floor, round and fma are exact"]
RULE = {
    "G01": "Calls of every function of the generated libraries (Rust and C, decimal and hexadecimal, 32 and 64 bits) over its domain: uniform, "
           "over all exponents, next to branch points, ends of the domain and multiples of pi/8.",
    "G02": "Every constant of every generated library.",
    "G04": "Every one-argument function at 14 special values in 8 libraries; every two-argument function at 81 pairs in 4; random normal "
           "numbers; opposite arguments; the four quadrants; huge angles; pairs.",
    "G05": "Indices, bounds, halfway numbers of all sizes, floats of all exponents.",
    "S02": "Calls of every function of the library for portable SIMD, with decimal and with hexadecimal constants, at 32 and 64 bits: each call "
           "in one of four lanes, the others holding earlier calls; and the same calls of the Rust library.",
    "C02": "Calls of every function with a C form, in and around its domain, in the C libraries and in Rust with and without fused multiply-add."}
SIZES = {"G01": ("G01", 45000, 600000), "G02": ("G02", 184, 184), "G04": ("G04", 40000, 500000), "G05": ("G05", 32000, 400000),
         "C02": ("C02", 45000, 600000), "S02": ("S02", 45000, 600000)}


def check(ck):
    mode, quick, thorough = SIZES[ck.pid]
    return run(ck, [(mode, ck.size(quick, thorough))])


# ------------------------------------------------------------------ G03

def literal(text):
    """A decimal literal as m * 10^e."""
    t = text.replace(" ", "").replace("_", "")
    t = re.sub(r"(f32|f64|asfty)", "", t)
    m = re.fullmatch(r"(-?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?", t)
    if not m or not (m.group(2) or m.group(3)):
        return None
    frac = m.group(3) or ""
    return {"m": str(int(m.group(1) + (m.group(2) or "") + frac)), "e": int(m.group(4) or 0) - len(frac)}


def end(text):
    m = re.fullmatch(r"(-?)(PI|[\d.]+)(?:/(\d+))?", text)
    lit = literal(m.group(1) + ("1" if m.group(2) == "PI" else m.group(2)))
    return dict(lit, pi=m.group(2) == "PI", d=int(m.group(3) or 1))


NUMBER = r"-?\s*\d[\d_]*(?:\.\d*)?(?:[eE][+-]?\d+)?\s*(?:_?f(?:32|64)|as\s+fty)?"
TRIPLE = r"\(\s*%s\s*,\s*%s\s*,\s*%s\s*,?\s*\)" % (NUMBER, NUMBER, NUMBER)


def block(text, at):
    """The text of the block that opens at this brace, without its braces."""
    depth = 0
    for j in range(at, len(text)):
        depth += {"{": 1, "}": -1}.get(text[j], 0)
        if depth == 0:
            return text[at + 1:j]
    return ""


def parts(body):
    """Rows, limit, variable and expression of a generated test, and where they are in its text: spans of rows, limit, expression."""
    rows = list(re.finditer(TRIPLE, body))
    if not rows:
        return None
    first, last = body.rfind("[", 0, rows[0].start()), body.find("]", rows[-1].end())
    closure = re.compile(r"\|\s*(\w+)\s*\|").search(body, last)
    limit = re.compile(r"(?<![\w.\"])(%s)" % NUMBER).search(re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', body), last)
    if first < 0 or last < 0 or not closure or not limit or limit.start() > closure.start():
        return None
    stop, depth = closure.end(), 0
    while stop < len(body) and not (depth == 0 and body[stop] in "),;"):
        depth += {"(": 1, ")": -1}.get(body[stop], 0)
        stop += 1
    return {"rows": [m.group()[1:-1].rstrip(", ").split(",") for m in rows], "limit": limit.group(1), "var": closure.group(1),
            "expr": body[closure.end():stop], "spans": [(first, last + 1), limit.span(1), (closure.end(), stop)]}


def judge_of(body):
    """A generated test with other rows, another limit and another function."""
    p = parts(body)
    out, at = "", 0
    for (a, b), new in zip(p["spans"], ("rows [..]", "(limit) as fty", " res [" + p["var"] + " as usize]")):
        out += body[at:a] + new
        at = b
    return out + body[at:]


def in_1024ths(text, bits):
    """A number as the type reads it."""
    if not literal(text):
        return "odd"
    form = "<f" if bits == 32 else "<d"
    v = struct.unpack(form, struct.pack(form, float(text)))[0] * 1024
    return "%d" % v if v == int(v) else "odd"


V_MAIN = """
fn judge(rows: &Vec<(fty, fty, fty)>, limit: fty, res: &Vec<fty>) { %s }
fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let num = |s: &str| -> fty { match s { "nan" => fty::NAN, "inf" => fty::INFINITY, "-inf" => -fty::INFINITY,
                                           _ => s.parse::<fty>().unwrap() / 1024.0 } };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        let rows: Vec<(fty, fty, fty)> = w[2..].chunks(3).enumerate().map(|(n, r)| (n as fty, num(r[0]), num(r[1]))).collect();
        let res: Vec<fty> = w[2..].chunks(3).map(|r| num(r[2])).collect();
        let ok = std::panic::catch_unwind(|| judge(&rows, num(w[1]), &res)).is_ok();
        // a file that the test writes
        let mut plot = String::new();
        for f in std::fs::read_dir(".").unwrap() {
            let path = f.unwrap().path();
            plot = plot + &std::fs::read_to_string(&path).unwrap().trim().replace("\n", ";");
            std::fs::remove_file(&path).unwrap();
        }
        println!("@{}\t{}\t{}", w[0], if ok { "pass" } else { "fail" }, plot);
    }
}
"""


def verdicts(ck, text, bits, scen, main, what):
    """What the generated tests say to planned results."""
    src, exe = ck.path("%s%d.rs" % (what, bits)), ck.path("%s%d" % (what, bits))
    with open(src, "w") as f:
        f.write("#![allow(warnings)]\n" + text + main)
    p = subprocess.run(["rustc", "--edition", "2021", "-Copt-level=1", "-o", exe, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        ck.bad("tests %d" % bits, "the generated tests do not compile", p.stderr.decode(errors="replace")[:3000])
        return {}
    run = ck.path("run_%s%d" % (what, bits))
    os.makedirs(run)
    p = subprocess.run([exe], input=open(scen, "rb").read(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300, cwd=run)
    return dict(l[1:].split("\t", 1) for l in p.stdout.decode(errors="replace").split("\n") if l.startswith("@"))


H_MAIN = """
fn runif_test(runif: &dyn Fn(usize, fty, fty) -> fty) { %s }
fn rnorm_test(rnorm: &dyn Fn(usize, fty, fty) -> fty) { %s }
fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        let (lo, len) = if w[1] == "runif" { (0.0, 1.0) } else { (-2.0, 4.0) };
        // the numbers of a bucket lie anywhere in it, its lower end included; what is left lies outside the interval
        let (mut all, mut turn): (Vec<fty>, usize) = (vec![], 0);
        for (j, n) in w[2..].iter().enumerate() {
            for _ in 0..n.parse::<usize>().unwrap() {
                turn += 1;
                all.push(lo + len * (j as fty + (turn %% 64) as fty / 64.0) / 32.0);
            }
        }
        assert!(all.len() <= 1000000);
        while all.len() < 1000000 {
            turn += 1;
            all.push(match turn %% 4 { 0 => lo + len, 1 => lo - len / 64.0, 2 => lo + len * 1.5, _ => lo - len });
        }
        let draw = |i: usize, a: fty, b: fty| -> fty { if a == 0.0 && b == 1.0 && i < 1000000 { all[i * 7919 %% 1000000] } else { panic!() } };
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if w[1] == "runif" { runif_test(&draw) } else { rnorm_test(&draw) })).is_ok();
        println!("\\n@{}\\t{}", w[0], if ok { "pass" } else { "fail" });
    }
}
"""


def g03(ck):
    ck.selftest()
    ck.tlc("FloatTest", init=None)
    ck.tlc("RealFnTest", init=None)
    binary = common.build_libmgen()
    consts = {"Seed": ck.seed, "Count": ck.size(3000, 60000), "Plans": ck.size(120, 1500)}
    table, ck.notes["hooks"] = common.hook(binary, "verif-tests")
    table = [l.split("|") for l in table.splitlines()]
    ck.tlc("RowsGen", dict(consts, Chunk=24, ScenFile=ck.path("scen"), PlanFile=ck.path("plans")))
    recs, lines = [], []

    def add(rec, line):
        rec["id"] = len(recs) + 1
        recs.append(rec)
        lines.append("%d\t%s" % (rec["id"], line))

    def tests(b, *more):
        return resolver.run_cli(binary, ["-f", ",".join(ALL), "--generate-tests", "--num-bits", str(b), *more])
    outs = resolver.par(lambda j: tests(*j), [(32,), (64,), (32, "--generate-plots"), (64, "--generate-plots")])
    plots = {32: outs[2], 64: outs[3]}
    for bits, (rc, text, err) in zip((32, 64), outs):
        if rc != 0:
            ck.bad("libmgen %d" % bits, "no tests are generated", err[:2000])
            continue
        found = {m.group(1): block(text, m.end() - 1) for m in re.finditer(r"fn\s+(test_\w+)\s*\(\s*\)\s*\{", text)}
        for name, call, lo, hi, b32, b64, n in table:
            p = parts(found.get(name, "")) or {"rows": [], "limit": "0", "expr": "", "var": "x"}
            rows = p["rows"]
            tested = re.sub(r"\s", "", re.sub(r"\b%s\b" % p["var"], "x", p["expr"]))
            add({"kind": "test", "b": bits, "call": tested, "want": re.sub(r"\s", "", call), "rows": len(rows), "n": int(n),
                 "limit": literal(p["limit"]), "bits": literal(b32 if bits == 32 else b64)}, "test %s %d" % (name, bits))
            f, more = re.fullmatch(r"(\w+)\(x(.*)\)", tested).groups() if tested else ("none", "")
            for j, r in enumerate(rows):
                v = [literal(x) for x in r]
                if len(v) != 3 or None in v:
                    ck.bad("row %d of %s %d" % (j, name, bits), "no row", str(r))
                    continue
                add({"kind": "row", "b": bits, "f": f, "more": [literal(x) for x in more.split(",")[1:]], "min": end(lo), "max": end(hi),
                     "n": int(n), "j": j, "x": v[0], "y": v[1], "err": v[2]}, "row %d of %s %d: %s" % (j, name, bits, ",".join(r)))
        whole = [found[t[0]] for t in table if parts(found.get(t[0], ""))]
        if not whole:
            ck.bad("tests %d" % bits, "no tests are generated", text[-2000:])
            continue
        said = verdicts(ck, text, bits, ck.path("scen"), V_MAIN.replace("%s", judge_of(whole[0])), "verdict")
        for l in sorted(open(ck.path("scen")), key=lambda l: int(l.split("\t", 1)[0])):
            k, rows = l.rstrip("\n").split("\t")
            add({"kind": "verdict", "b": bits, "k": int(k), "got": said.get(k, "none").split("\t")[0]}, "verdict %d on %s" % (bits, rows))
        if plots[bits][0] != 0:
            ck.bad("libmgen %d" % bits, "no tests with plots are generated", plots[bits][2][:2000])
        else:
            text2 = plots[bits][1]
            m = re.search(r"fn\s+%s\s*\(\s*\)\s*\{" % table[0][0], text2)
            body = judge_of(block(text2, m.end() - 1)) if m and parts(block(text2, m.end() - 1)) else ""
            # the same function once more, for the plot
            body = re.sub(r"\|\s*x\s*\|\s*%s" % re.escape(parts(found[table[0][0]])["expr"].strip()), "|x| res [x as usize]", body)
            said = verdicts(ck, text2, bits, ck.path("scen"), V_MAIN.replace("%s", body), "plot")
            for l in sorted(open(ck.path("scen")), key=lambda l: int(l.split("\t", 1)[0]))[:ck.size(600, 6000)]:
                k, rows = l.rstrip("\n").split("\t")
                verdict, _, plot = said.get(k, "none").partition("\t")
                if verdict == "pass":
                    csv = [[v.strip() for v in p.split(",")] for p in plot.split(";")]
                    add({"kind": "plot", "b": bits, "k": int(k), "head": csv[0], "got": [[in_1024ths(v, bits) for v in p] for p in csv[1:]]},
                        "plot %d of %s" % (bits, rows))
        if not ("test_runif" in found and "test_rnorm" in found):
            ck.bad("tests %d" % bits, "no tests of the random functions are generated", "")
            continue
        said = verdicts(ck, text, bits, ck.path("plans"), H_MAIN % (found["test_runif"], found["test_rnorm"]), "histogram")
        for l in sorted(open(ck.path("plans")), key=lambda l: int(l.split("\t", 1)[0])):
            k, counts = l.rstrip("\n").split("\t")
            add({"kind": "histogram", "b": bits, "k": int(k), "got": said.get(k, "none")}, "histogram %d of %s" % (bits, counts))

    def corrupt_row(rec):
        rec = copy.deepcopy(rec)
        if rec["kind"] == "row":
            part = ("x", "y", "err")[rec["id"] % 3]
            rec[part]["m"] = str(int(rec[part]["m"]) * 3 + 10 ** 16)
        elif rec["kind"] == "plot":
            if rec["id"] % 2:
                rec["got"][-1][rec["id"] // 2 % 4] += "1"
            else:
                rec["got"].pop()
        elif rec["kind"] == "test":
            rec["limit"]["m"] = str(2 * int(rec["limit"]["m"]))
        else:
            rec["got"] = {"pass": "fail", "fail": "pass"}.get(rec["got"], "none")
        return rec
    ck.validate("RowsTrace", consts, lines, [json.dumps(r) for r in recs], corrupt_row, canaries=12)
    return ck.finish("model_checking", "Every row of every generated test at both widths; the tests' limits; the judging function on random rows "
                     "with results at, inside and outside the limit, infinite and NaN; the plots of those that pass; planned histograms for the random functions.", ["rustc runs the judging function as written"])


CHECKS = {k: check for k in SIZES}
CHECKS["G03"] = g03
