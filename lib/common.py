"""What every check shares: building, running TLC, replaying scenarios, findings and evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
RUSTFLAGS = "-Copt-level=3 --cfg verif_hooks"


class ToolError(Exception):
    """The check itself could not be carried out (exit 2)."""


def sh(cmd, timeout=600, cwd=VERIF, env=None, stdin=None, check=True, binary=False):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % " ".join(cmd))
    if check and p.returncode != 0:
        raise ToolError("%s\n%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:],
                                        p.stderr.decode(errors="replace")[-3000:]))
    if not binary:
        p.stdout = p.stdout.decode(errors="replace")
        p.stderr = p.stderr.decode(errors="replace")
    return p


def build_java():
    src = os.path.join(SPEC, "java/tlc2/overrides/ZOverrides.java")
    out = os.path.join(BUILD, "java")
    cls = os.path.join(out, "tlc2/overrides/ZOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) > os.path.getmtime(src):
        return out
    tmp = out + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    sh(["javac", "-cp", CP, "-d", tmp, src])
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out


def cargo(manifest, extra=(), target="target", release=True, rustflags=None, package=None):
    cmd = ["cargo", "build", "--offline", "--manifest-path", manifest,
           "--target-dir", os.path.join(BUILD, target)]
    if release:
        cmd.append("--release")
    if package:
        cmd += ["-p", package]
    cmd += list(extra)
    return sh(cmd, env={"RUSTFLAGS": rustflags if rustflags is not None else RUSTFLAGS,
                        "CARGO_TERM_COLOR": "never"}, timeout=800)


def build_harness():
    cargo(os.path.join(VERIF, "harness/Cargo.toml"))
    return os.path.join(BUILD, "target/release/harness")


def build_libmgen():
    """The generator, with the verification hooks if they fit the code."""
    try:
        cargo(os.path.join(REPO, "Cargo.toml"), target="libmgen", package="libmgen", extra=["--locked"])
    except ToolError:
        # An edit that the hooks do not follow; the program itself must build.
        cargo(os.path.join(REPO, "Cargo.toml"), target="libmgen", package="libmgen", extra=["--locked"], rustflags="-Copt-level=3")
    return os.path.join(BUILD, "libmgen/release/libmgen")


def hook(binary, command):
    """What a hook prints: or, where the code has changed under the hooks, what it printed when they were made."""
    out = sh([binary, "-f", command], check=False).stdout
    if out.strip():
        return out, True
    name = {"verif-table": "table.txt", "verif-tests": "tests.txt"}[command]
    out = open(os.path.join(VERIF, "lib/tables", name)).read()
    if command == "verif-table" and [l.split("|")[0] for l in out.splitlines()] != sh([binary, "-f", "help"]).stdout.split():
        raise ToolError("the hooks do not fit the code, and the table has changed")
    return out, False


class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.bads = []            # (key, reason, detail)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.samples = []
        self.notes = {}
        self.java = None
        self.exhaustive = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---------------------------------------------------------------- TLC

    def tlc(self, module, consts=None, view=None, invariants=(), properties=(), stage=None, timeout=850,
            init="Init", next="Next", workers=8, expect=0, heap="12g", spec=None):
        """Run TLC; returns its output. stage names the run; a failed evaluation is a ToolError."""
        if self.java is None:
            self.java = build_java()
        stage = stage or module
        cfg = self.path(stage + ".cfg")
        with open(cfg, "w") as f:
            if spec:
                f.write("SPECIFICATION %s\n" % spec)
            elif init:
                f.write("INIT %s\nNEXT %s\n" % (init, next))
            if view:
                f.write("VIEW %s\n" % view)
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write("  %s = %s\n" % (k, tla(v)))
        counters = self.path(stage + ".counters")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dz.counters=" + counters,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.ZOverrides",
               "-cp", CP + ":" + self.java, "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
               "-metadir", self.path(stage + ".meta"), "-config", cfg, os.path.join(SPEC, module + ".tla")]
        p = sh(cmd, cwd=SPEC, timeout=timeout, check=False)
        shutil.rmtree(self.path(stage + ".meta"), ignore_errors=True)
        with open(self.path(stage + ".out"), "w") as f:
            f.write(p.stdout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if os.path.exists(counters):
            for line in open(counters):
                k, v = line.rstrip("\n").split("\t")
                self.counters[k] = self.counters.get(k, 0) + int(v)
        if p.returncode != expect:
            raise TlcFailure(stage, p.returncode, p.stdout)
        return p.stdout

    def selftest(self):
        """The big-number evaluations agree with TLC's integers."""
        self.tlc("ZSelfTest", init=None)

    # ------------------------------------------------------------- replay

    def replay(self, scen, obs, limit=30, binary=None):
        """Run scenarios against the code; a crash of the harness process is an observation too."""
        binary = binary or build_harness()
        lines = sorted((l for l in open(scen)), key=lambda l: int(l.split("\t", 1)[0]))
        ids = [l.split("\t", 1)[0] for l in lines]
        if len(set(ids)) != len(ids):
            raise ToolError("scenario numbers are not unique")

        def run(part, tag):
            s, o = self.path("part%s.scen" % tag), self.path("part%s.obs" % tag)
            with open(s, "w") as f:
                f.writelines(part)
            p = sh([binary, s, o, str(limit)], check=False, timeout=800)
            if p.returncode == 0:
                return open(o).read().splitlines()
            if len(part) == 1:
                return ['{"id":%s,"st":"crash"}' % part[0].split("\t", 1)[0]]
            mid = len(part) // 2
            return run(part[:mid], tag + "a") + run(part[mid:], tag + "b")

        got = run(lines, "")
        with open(obs, "w") as f:
            f.write("\n".join(got) + "\n")
        return lines, got

    def validate(self, trace, consts, lines, got, corrupt, name="", key=None, view="View", canaries=6):
        """Check recorded observations against a trace specification.

        Corrupted copies of some records are added; the specification has to reject each of them,
        which shows that the comparison binds."""
        recs = list(got)
        bad_at = []
        step = max(1, len(got) // (canaries * 3))
        for n in range(0, len(got), step):
            if len(bad_at) >= canaries:
                break
            r = json.loads(got[n])
            c = corrupt(r)
            if c is not None:
                recs.append(json.dumps(c))
                bad_at.append(len(recs))
        obs, badfile = self.path(name + "trace.obs"), self.path(name + "trace.bad")
        with open(obs, "w") as f:
            f.write("\n".join(recs) + "\n")
        c = dict(consts)
        c["ObsFile"] = obs
        c["BadFile"] = badfile
        try:
            self.tlc(trace, c, view=view, stage=name + trace)
        except TlcFailure as e:
            if not e.evaluation():
                raise
            self.bad("uninterpretable", "an observation has no meaning in the specification", str(e)[-3000:])
        bads = {}
        if os.path.exists(badfile):
            for l in open(badfile):
                pos, rid, stp, why = (l.rstrip("\n").split("\t") + ["", "", ""])[:4]
                bads.setdefault(int(pos), (rid, stp, why))
        missed = [p for p in bad_at if p not in bads]
        if missed and not self.bads:
            raise ToolError("corrupted records were accepted: %s" % [recs[p - 1][:300] for p in missed])
        if not bad_at and not bads and not self.bads:
            raise ToolError("no record could be corrupted")
        self.notes["corrupted_records_rejected"] = self.notes.get("corrupted_records_rejected", 0) + len(bad_at)
        for pos, (rid, stp, why) in sorted(bads.items()):
            if pos > len(got):
                continue
            scen = lines[pos - 1].rstrip("\n")
            self.bad(key(scen, got[pos - 1], stp, why) if key else scen.split("\t", 1)[1] + " | " + why, why,
                     "scenario: %s\nstep: %s\nreason: %s\nobserved: %s" % (scen, stp, why, got[pos - 1][:4000]))
        self.traces += len(got)
        for n in (0, len(lines) // 2, len(lines) - 1):
            self.samples.append(lines[n].rstrip("\n")[:400])
        return bads

    def bad(self, key, why, detail):
        self.bads.append((key, why, detail))

    # ------------------------------------------------------------ verdict

    def finish(self, level, rule, assumptions=()):
        known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        fresh = []
        seen = set()
        for b in self.bads:
            if b[0] in known:
                if b[0] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[b[0]]))
                seen.add(b[0])
            else:
                fresh.append(b)
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        replay = os.path.join(evd, self.pid + ".replay.txt")
        if fresh:
            with open(replay, "w") as f:
                f.write("property %s, tier %s, VERIF_SEED=%d\nreproduce: cd /verif && VERIF_SEED=%d bin/check %s --tier %s\n\n"
                        % (self.pid, self.tier, self.seed, self.seed, self.pid, self.tier))
                for key, why, detail in fresh[:50]:
                    f.write("---- %s\nkey: %s\n%s\n\n" % (why, key, detail))
                f.write("%d in all\n" % len(fresh))
        elif os.path.exists(replay):
            os.remove(replay)
        cov = {
            "rule": rule,
            "samples": self.samples[:12] or ["(none)"],
            "counters": self.counters,
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "known_findings_seen": len(seen),
            "exhaustive": self.exhaustive,
        }
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if fresh:
            for key, why, detail in fresh[:5]:
                print("  %s: %s" % (why, key[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("ok %s (%s): %d records, %d states, %.1f s" % (self.pid, self.tier, self.traces, self.states,
                                                            time.time() - self.t0))
        return 0


class TlcFailure(ToolError):
    def __init__(self, stage, rc, out):
        self.rc = rc
        self.out = out
        super().__init__("TLC failed in %s (exit %d)\n%s" % (stage, rc, out[-3500:]))

    def evaluation(self):
        return self.rc not in (0, 10, 11, 12, 13) and "OutOfMemory" not in self.out and (
            "Attempted" in self.out or "evaluating" in self.out or "IllegalArgument" in self.out
            or "exception was a" in self.out)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise ValueError(v)
