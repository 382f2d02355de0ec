"""Common machinery of the checks: build the harness against /repo, record, run TLC, write evidence.

Exit status: 0 held, 1 violation (with a VIOLATION line), 3 the machinery itself failed.
"""
import threading, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"


class Broken(Exception):
    """The machinery failed: no verdict."""


def goenv():
    e = dict(os.environ)
    e.update(GOENV="off", GO111MODULE="on", GOWORK="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", TZ="UTC", LC_ALL="C.UTF-8")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "out", "%s.%s.%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock, self.count = threading.Lock(), 0
        self.states = self.transitions = self.traces = 0
        self.detail, self.samples, self.assumptions = {}, [], []
        self.exhaustive = True
        self.violations = []     # (what, replay object)
        self.known = load_known(prop)
        self.known_hit = []

    def thorough(self):
        return self.tier == "thorough"

    # ---- building -------------------------------------------------------------
    def build(self):
        d = os.path.join(self.work, "harness")
        os.makedirs(d)
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith(".go"):
                shutil.copy(os.path.join(VERIF, "harness", f), d)
        mod = open(os.path.join(REPO, "go.mod")).read()
        req = "\n".join(re.findall(r"(?ms)^require\s*\(.*?^\)|^require\s+[^\(\n]+$|^replace\s.*?$|^exclude\s.*?$", mod))
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module verifharness\n\ngo 1.16\n\nrequire github.com/spiegel-im-spiegel/gpgpdump v0.0.0\n\n"
                    "replace github.com/spiegel-im-spiegel/gpgpdump => %s\n\n%s\n" % (REPO, req))
        shutil.copy(os.path.join(REPO, "go.sum"), d)
        self.harness = os.path.join(d, "harness")
        self.source = d
        p = subprocess.run(["go", "build", "-o", self.harness, "."], cwd=d, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("harness does not build against %s:\n%s" % (REPO, p.stdout[-3000:]))

    def build_race(self):
        """The same harness with the race detector."""
        out = os.path.join(self.source, "harness.race")
        e = goenv()
        e["CGO_ENABLED"] = "1"
        p = subprocess.run(["go", "build", "-race", "-o", out, "."], cwd=self.source, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("harness does not build with the race detector:\n" + p.stdout[-3000:])
        return out

    def build_cli(self):
        out = os.path.join(self.work, "gpgpdump")
        # -mod=readonly in a private copy of the module files, so that go never rewrites /repo/go.mod
        shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(self.work, "cli.mod"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "cli.sum"))
        p = subprocess.run(["go", "build", "-modfile", os.path.join(self.work, "cli.mod"), "-o", out, "."], cwd=REPO,
                           env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("gpgpdump does not build:\n" + p.stdout[-3000:])
        return out

    def clipboard(self):
        """A clipboard tool that delivers what the harness put into a file."""
        d = os.path.join(self.work, "tools")
        with self.lock:         # several recorders may start at once
            if not os.path.exists(d):
                os.makedirs(d)
                p = os.path.join(d, "xclip")
                with open(p, "w") as f:
                    f.write('#!/bin/sh\ncat "$VERIF_CLIP"\nexit ${VERIF_CLIP_RC:-1}\n')
                os.chmod(p, 0o755)
        return d

    # ---- the harness --------------------------------------------------------------
    def run_harness(self, args, out=None, timeout=600, seed=None, env=None, ok=(0,), exe=None, memory=24):
        """Runs the harness; a crash of the process is returned, not raised, when ok allows any code."""
        out = out or self.work
        os.makedirs(out, exist_ok=True)
        cmd = [exe or self.harness, "-tier", self.tier, "-seed", str(self.seed if seed is None else seed), "-out", out,
               "-repo", REPO] + list(args)
        e = goenv()
        e["GOTRACEBACK"] = "single"
        e["PATH"] = self.clipboard() + ":" + e.get("PATH", "")
        e.pop("WAYLAND_DISPLAY", None)
        if env:
            e.update(env)

        def limit():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if memory:      # the race detector needs an unlimited address space
                resource.setrlimit(resource.RLIMIT_AS, (memory << 30, memory << 30))
        try:
            p = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=timeout, preexec_fn=limit, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise Broken("harness timed out: %s" % " ".join(cmd))
        if ok is not None and p.returncode not in ok:
            raise Broken("harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), (p.stderr or p.stdout)[-3000:]))
        return p

    # ---- TLC --------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, args=(), timeout=800, cwd=None, heap="8g"):
        """Runs TLC; returns its output.  An invariant violation is a normal end, any other error is Broken."""
        e = dict(os.environ)
        e.update(env or {})
        with self.lock:
            self.count += 1
            meta = os.path.join(self.work, "tlc.%d" % self.count)
        os.makedirs(meta)
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp",
               TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(?m)^(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            raise Broken("TLC gave no result on %s:\n%s" % (module, out[-3000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        init = re.findall(r"Finished computing initial states: ([\d,]+) distinct", out)
        ninit = int(init[-1].replace(",", "")) if init else 1
        self.states += dist
        self.transitions += max(gen - ninit, 0)
        # 0 ok, 12 safety violation; with -continue the errors are in the text
        bad = [l for l in re.findall(r"(?m)^Error: (.*)$", out)
               if not re.match(r"Invariant \S+ is violated|The behavior up to this point|Action property", l)]
        if p.returncode not in (0, 12) or bad:
            raise Broken("TLC failed on %s (%d): %s\n%s" % (module, p.returncode, bad[:3], out[-2500:]))
        return out

    def no_error(self, module, out):
        """The model itself must satisfy its invariants: otherwise the machinery is wrong."""
        if re.search(r"(?m)^Error: ", out):
            raise Broken("the specification %s violates its own properties:\n%s" % (module, out[-3000:]))

    @staticmethod
    def prints(out, prefix):
        """JSON values printed by TLC as strings starting with prefix."""
        res, seen = [], set()
        for l in out.splitlines():
            if l.startswith('"' + prefix + " ") and l.endswith('"') and l not in seen:
                seen.add(l)
                s = json.loads(l)           # TLC prints the string quoted and escaped
                res.append(json.loads(s[len(prefix) + 1:]))
        return res

    # ---- verdicts ----------------------------------------------------------------------
    def violation(self, what, replay, key=None):
        """key identifies the failing input; a listed finding is not a violation."""
        key = key or what
        for k in self.known:
            if k["key"] and k["key"] in key:
                self.known_hit.append(k)
                return
        self.violations.append((what, replay))

    def finish(self, level, technique_note=""):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6], exhaustive=self.exhaustive)
        cov.update(self.detail)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {x["line"]: x for x in self.known_hit}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([dict(what=w, replay=r) for w, r in self.violations[:50]], f, indent=1)
            for w, _ in self.violations[:5]:
                print("  " + w.replace("\n", " ")[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        else:
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d %.1fs" % (
                self.prop, self.tier, self.seed, self.states, self.transitions, self.traces, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(prop):
    """known-findings.txt lines: 'finding: property=<id> key=<key> <what fails>' (fixed: lines suppress nothing)"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), what=m.group(3), line=l))
    return res
