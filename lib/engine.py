"""Runs the stages of a check: TLC on the specification, the harness on the
code, and what they found compared; writes the evidence; says what is wrong."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # another copy only when trying out changes
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(BUILD, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself failed: no verdict."""


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.deep = tier == "thorough"
        self.dir = os.path.join(BUILD, "work", prop + ("-deep" if self.deep else ""))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.cases = 0
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = {k["key"]: k for k in findings() if k["property"] == prop}
        self.known_seen = set()

    # ---- TLC
    def tlc(self, name, module, constants, cfg, extra=(), simulate=None, workers=8, defs="", heap="8g", ok=(), seed=None):
        """Run TLC on a module of spec/ with the given constants; the result
        is the name of the file with its output."""
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n" % (module, defs))
            for k, v in constants.items():
                f.write("MC_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg + "\nCHECK_DEADLOCK FALSE\n")
            if constants:
                f.write("CONSTANTS\n" + "".join(" %s <- MC_%s\n" % (k, k) for k in constants))
        out = os.path.join(d, "out.txt")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-config", "MC.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed if seed is None else seed)]
        cmd += list(extra) + ["MC.tla"]
        t = time.time()
        with open(out, "w") as f:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=3 * 3600 if self.deep else 800)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        tail = subprocess.run(["grep", "-v", "^\"", out], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        m = None
        for m in re.finditer(r"(\d+) states generated.*?(\d+) distinct states found", tail):
            pass
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            n = int(m.group(2))
        else:
            m = None
            for m in re.finditer(r"(\d+) states checked", tail):
                pass
            n = int(m.group(1)) if m else 0
            if not m:
                for m in re.finditer(r"The number of states generated: (\d+)", tail):
                    pass
                n = int(m.group(1)) if m else 0
            self.states += n
            self.transitions += n
        if p.returncode != 0 or "Error:" in tail:
            if p.returncode not in ok:
                raise ToolError("TLC failed on %s (%s), see %s:\n%s" % (name, p.returncode, out, "\n".join(tail.splitlines()[-25:])))
        log("  TLC %s: %d states, %.1f s" % (name, n, time.time() - t))
        return out

    # ---- the code under test
    def harness(self, name, cmd, args, timeout=None, exe=HARNESS):
        """Run a command of the harness; returns its result. If the code under
        test ends the process, that is a violation if the case does it again
        when it is alone."""
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        res, prog, known = (os.path.join(d, f) for f in ("result.json", "progress", "known.json"))
        with open(known, "w") as f:
            json.dump(sorted(self.known), f)
        if os.path.exists(res):
            os.unlink(res)
        full = [exe, cmd, "-res", res, "-progress", prog, "-known", known] + list(args)
        t = time.time()
        try:
            p = subprocess.run(full, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=timeout or (3 * 3600 if self.deep else 600), preexec_fn=limits)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s takes too long" % cmd)
        if rc == 0 and os.path.exists(res):
            with open(res) as f:
                r = json.load(f)
            c = r["counts"]
            log("  harness %s: %s, %d mismatches, %.1f s" % (name, ", ".join("%s %d" % kv for kv in sorted(c.items())), r["nmismatches"], time.time() - t))
            for m in r["mismatches"] or []:
                self.violation(m["key"], m["what"], m["case"])
            for k in r["known"]:
                self.known_seen.add(k)
            return r
        if rc == 66 and "WARNING: DATA RACE" in err:
            i = err.index("WARNING: DATA RACE")
            self.violation("race", "parsers that run at the same time share state:\n" + err[i:i + 1500], {"cmd": cmd, "report": err[i:i + 6000]})
            return {"counts": {}, "mismatches": [], "frames": []}
        # What was it working on?
        for what, mode, text in slots(prog):
            bad = alone(what, mode, text)
            if bad:
                self.violation(mode + ":" + text[:2000], "%s %r: %s" % (mode, text[:300], bad),
                               {"cmd": what, "mode": mode, "text": text})
                return {"counts": {}, "mismatches": [], "frames": []}
        raise ToolError("harness %s failed (%s):\n%s" % (cmd, rc, err[-3000:]))

    def violation(self, key, what, case):
        if key in self.known:
            self.known_seen.add(key)
            return
        self.violations.append(dict(key=key, what=what, case=case))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- the end
    def finish(self):
        cov = dict(self.coverage)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.cases, samples=self.samples)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        evidence = os.path.join(VERIF if BUILD == os.path.join(VERIF, "build") else BUILD, "evidence")
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_seen):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]["what"]))
        if not self.violations:
            shutil.rmtree(self.dir, ignore_errors=True)
            log("%s: held on everything explored (%d states, %d cases, %.1f s)" % (self.prop, self.states, self.cases, time.time() - self.t0))
            return 0
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(self.violations[:8]):
            path = os.path.join(rd, "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, **v), f, indent=1)
            log("  " + v["what"][:1500])
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.violations) > 8:
            log("  and %d more" % (len(self.violations) - 8))
        return 1


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def slots(prog):
    """The cases in work when the harness ended."""
    out = []
    try:
        b = open(prog, "rb").read()
    except OSError:
        return out
    for i in range(0, len(b), 1 << 16):
        s = b[i:i + (1 << 16)]
        n = s[0] | s[1] << 8 | s[2] << 16
        if s[3] and n:
            parts = s[4:4 + n].split(b"\0", 2)
            if len(parts) == 3:
                out.append([p.decode("utf-8", "surrogateescape") for p in parts])
    return out


def alone(what, mode, text):
    """Run one case by itself: what went wrong, if it did."""
    try:
        p = subprocess.run([HARNESS, "one", what, mode], input=text.encode("utf-8", "surrogateescape"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, preexec_fn=limits_alone)
    except subprocess.TimeoutExpired:
        return "does not end"
    if p.returncode == 0:
        return None
    err = p.stderr.decode("utf-8", "replace")
    return "ends the process (status %d): %s" % (p.returncode, err.strip().splitlines()[0] if err.strip() else "")


def limits_alone():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def gobuild(out, pkg=".", cwd=os.path.join(VERIF, "harness"), flags=(), **env):
    """Build from the working tree of /repo."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, GOFLAGS="-buildvcs=false", GOTOOLCHAIN="local", GOPROXY="off", **env)
    if REPO != "/repo" and cwd != REPO:
        with open(os.path.join(cwd, "go.mod")) as f:
            mod = f.read().replace("=> /repo", "=> " + REPO)
        with open(os.path.join(BUILD, "go.mod"), "w") as f:
            f.write(mod)
        flags = ["-modfile=" + os.path.join(BUILD, "go.mod")] + list(flags)
    p = subprocess.run(["go", "build", *flags, "-o", out, pkg], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("%s does not build against /repo:\n%s" % (os.path.basename(out), p.stdout))
    return out


def build():
    gobuild(HARNESS)


def main(all_checks):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = all_checks[prop]
    run = Run(prop, tier, seed, c.get("level", "model_checking"))
    try:
        build()
        c["run"](run)
        sys.exit(run.finish())
    except (ToolError, subprocess.TimeoutExpired, OSError, ValueError, KeyError) as e:
        if run.violations:
            log("check error after a violation:", e)
            sys.exit(run.finish())
        log("ERROR", type(e).__name__, e)
        sys.exit(2)
