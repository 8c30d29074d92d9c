"""Shared machinery of the checks: TLC runs, driver builds, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.26.10/bin/go"
NCPU = os.cpu_count() or 4
# the packages whose locks the scheduler of ysync decides on
YSYNC = ["vroot/synthfs", "vroot/memfs", "vroot-adapter/overlayfs"]


class Infra(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


def tla(v):
    """A Python value as a TLC configuration value."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, set, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    raise TypeError(v)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.violations = [], [], []
        self.cov = {}
        self.bins = {}
        self.n = 0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        self.n += 1
        return os.path.join(self.work, "%02d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- Go ---------------------------------------------------------------
    def goenv(self):
        e = dict(os.environ)
        e.update(HOME="/root", GOPATH="/root/go", GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="",
                 GOENV="off", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        e.pop("GOWORK", None)
        return e

    def ysync(self):
        """An overlay for go build under which the code that locks uses verif/harness/ysync and yatomic for it."""
        if "ysync" in self.bins:
            return self.bins["ysync"]
        with open(os.path.join(HARNESS, "go.work")) as f:
            repo = re.search(r"^\s+(/\S+)/vroot$", f.read(), re.M)[1]
        rep = {}
        for pkg in YSYNC:
            d = os.path.join(repo, pkg)
            for name in sorted(os.listdir(d)):
                if not name.endswith(".go") or name.endswith("_test.go"):
                    continue
                src = open(os.path.join(d, name)).read()
                new = re.sub(r'(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync"', lambda m: m[1] + (m[2] or "sync ") + '"verif/harness/ysync"', src)
                new = re.sub(r'(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync/atomic"', lambda m: m[1] + (m[2] or "atomic ") + '"verif/harness/yatomic"', new)
                if new != src:
                    out = self.path(name)
                    with open(out, "w") as f:
                        f.write(new)
                    rep[os.path.join(d, name)] = out
        out = self.path("overlay.json")
        with open(out, "w") as f:
            json.dump({"Replace": rep}, f)
        self.bins["ysync"] = out
        return out

    def build(self, cmd, race=False, overlay=None, tags=None):
        if cmd == "lin":
            overlay = self.ysync()
        key = (cmd, race, overlay, tags)
        if key in self.bins:
            return self.bins[key]
        out = self.path("bin-" + cmd.replace("/", "_"))
        args = [GO, "build", "-o", out]
        if race:
            args.append("-race")
        if overlay:
            args += ["-overlay", overlay]
        if tags:
            args += ["-tags", tags]
        args.append("./cmd/" + cmd)
        p = subprocess.run(args, cwd=HARNESS, env=self.goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise Infra("building the %s driver failed:\n%s" % (cmd, p.stderr[-3000:]))
        self.bins[key] = out
        return out

    def drive(self, cmd, args, timeout=600, env=None, binary=None, nobody=False):
        """Run a driver; collect its summary."""
        exe = binary or self.build(cmd)
        out = self.path("summary.json")
        scratch = self.path("scratch")
        os.mkdir(scratch)
        e = self.goenv()
        e["TMPDIR"] = scratch
        who = {}
        if nobody:
            # Code that may escape its root runs as a user that owns nothing but its scratch directory.
            os.chmod(self.work, 0o755)
            os.chown(scratch, 65534, 65534)
            open(out, "w").close()
            os.chown(out, 65534, 65534)
            who = dict(user=65534, group=65534, extra_groups=[])
            e["HOME"] = scratch
        e["VERIF_SEED"] = str(self.seed)
        e.update(env or {})
        try:
            p = subprocess.run([exe, "-out", out] + args, cwd=scratch, env=e, capture_output=True,
                               text=True, timeout=timeout, **who)
        except subprocess.TimeoutExpired as x:
            self.violate({"subject": cmd, "msg": "the code under test did not finish within %ds (hang or deadlock)" % timeout,
                          "sig": cmd + "|hang", "args": args}, cmd)
            return {}
        finally:
            subprocess.run(["chmod", "-R", "u+rwx", scratch], capture_output=True)
            shutil.rmtree(scratch, ignore_errors=True)
        if p.returncode == 3 or (p.returncode != 0 and not self._crashed(p.stderr)):
            raise Infra("driver %s failed (%d):\n%s" % (cmd, p.returncode, p.stderr[-3000:]))
        if p.returncode != 0:
            self.violate({"subject": cmd, "msg": "the code under test crashed the driver: " + p.stderr[:1500],
                          "sig": cmd + "|crash", "args": args}, cmd)
            return {}
        with open(out) as f:
            s = json.load(f)
        self.traces += s.get("traces", 0)
        self.steps += s.get("steps", 0)
        for v in s.get("violations") or []:
            self.violate(v, cmd)
        for n in s.get("notes") or []:
            if n not in self.notes:
                self.notes.append(n)
        for x in (s.get("samples") or [])[:2]:
            if len(self.samples) < 6:
                self.samples.append(x)
        return s

    @staticmethod
    def _crashed(err):
        return ("panic:" in err or "fatal error:" in err or "DATA RACE" in err) and "/repo/" in err

    def violate(self, v, driver):
        v["driver"] = driver
        self.violations.append(v)

    # ---- TLC --------------------------------------------------------------
    def _cfg(self, consts, lines):
        p = self.path("m.cfg")
        with open(p, "w") as f:
            f.write("CONSTANTS\n" if consts else "")
            for k, v in consts.items():
                f.write(" %s = %s\n" % (k, tla(v)))
            f.write("\n".join(lines) + "\nCHECK_DEADLOCK FALSE\n")
        return p

    def _tlc(self, module, cfg, extra, out, timeout, heap, env=None):
        md = self.path("md")
        os.mkdir(md)
        args = ["java", "-Xss64m", "-Xmx%s" % heap, "-XX:+UseSerialGC" if "-simulate" in extra else "-XX:+UseParallelGC",
                "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-config", cfg] + extra + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        with open(out, "w") as f:
            try:
                p = subprocess.run(args, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(md, ignore_errors=True)
        return rc

    @staticmethod
    def _plain(out):
        with open(out, errors="replace") as f:
            return [l.rstrip("\n") for l in f if not l.startswith('"@@')]

    def _sample(self, out, n=1):
        k = 0
        with open(out, errors="replace") as f:
            for i, l in enumerate(f):
                if l.startswith('"@@'):
                    k += 1
                    if k % 7 == 3 or k == 1:
                        s = json.loads(l)[2:]
                        if len(self.samples) < 6:
                            self.samples.append(s[:1200])
                        n -= 1
                        if n <= 0:
                            return

    def bfs(self, module, consts, invariants=(), properties=(), view=None, constraint=None,
            timeout=600, workers=None, heap="6g", spec=None, symmetry=None, env=None, sample=1):
        """Exhaustive TLC run; its model-level properties must hold."""
        lines = ["SPECIFICATION " + spec] if spec else ["INIT Init", "NEXT Next"]
        if view:
            lines.append("VIEW " + view)
        if constraint:
            lines.append("CONSTRAINT " + constraint)
        if symmetry:
            lines.append("SYMMETRY " + symmetry)
        for i in invariants:
            lines.append("INVARIANT " + i)
        for i in properties:
            lines.append("PROPERTY " + i)
        out = self.path("tlc.out")
        rc = self._tlc(module, self._cfg(consts, lines), ["-workers", str(workers or NCPU)], out, timeout, heap, env)
        plain = self._plain(out)
        m = None
        for l in plain:
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", l) or m
        if rc != 0 or not m:
            raise Infra("TLC on %s ended with %d:\n%s" % (module, rc, "\n".join(plain[-40:])[-4000:]))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self._sample(out, sample)
        return out

    def sim(self, module, consts, num, depth, invariants=(), procs=None, timeout=300, heap="1500m", sample=1):
        """Seeded random behaviours, several TLC processes with distinct seeds."""
        procs = procs or NCPU
        lines = ["INIT Init", "NEXT Next"] + ["INVARIANT " + i for i in invariants]
        cfg = self._cfg(consts, lines)
        outs = [self.path("sim.out") for _ in range(procs)]
        with cf.ThreadPoolExecutor(procs) as ex:
            rcs = list(ex.map(lambda i: self._tlc(
                module, cfg, ["-workers", "1", "-simulate", "num=%d" % max(1, num // procs), "-depth", str(depth),
                              "-seed", str(self.seed * 1000 + i + 1)], outs[i], timeout, heap), range(procs)))
        for rc, out in zip(rcs, outs):
            plain = self._plain(out)
            m = None
            for l in plain:
                m = re.match(r"The number of states generated: (\d+)", l) or m
            if rc != 0 or not m:
                raise Infra("TLC simulation of %s ended with %d:\n%s" % (module, rc, "\n".join(plain[-40:])[-4000:]))
            self.transitions += int(m.group(1))
        self._sample(outs[0], sample)
        return outs

    def judge(self, module, driver, files, args=(), consts=None, timeout=300, nobody=False, shards=1, race=False):
        """Run a recording driver on scenario files; TLC judges every record it wrote by the specification.
        shards: run it in that many processes, each told which part is its own."""
        recs = [self.path("records.ndjson") for _ in range(shards)]
        binary = self.build(driver, race=race)
        more = {"GORACE": "halt_on_error=1 exitcode=66"} if race else {}

        def one(i):
            open(recs[i], "w").close()
            if nobody:
                os.chown(recs[i], 65534, 65534)
            own = ["-shard", str(i), "-of", str(shards)] if shards > 1 else []
            self.drive(driver, ["-rec", recs[i]] + own + list(args) + list(files), timeout=timeout, nobody=nobody, env=more, binary=binary)
        with cf.ThreadPoolExecutor(shards) as ex:
            list(ex.map(one, range(shards)))
        # a driver that was ended may have left its last record incomplete
        lines = [l for r in recs for l in open(r).read().splitlines(True)]
        lines = [l[:-1] for l in lines if l.endswith("\n")]
        if not lines:
            return
        n = max(1, min(NCPU, (len(lines) + 199) // 200))
        parts = []
        for i in range(n):
            p = self.path("part.ndjson")
            with open(p, "w") as f:
                f.write("\n".join(lines[i::n]) + "\n")
            parts.append((p, lines[i::n]))
        with cf.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda p: self.bfs(module, consts or {}, ["Judge"], env={"RECS": p[0]}, workers=1, sample=0,
                                                  heap="2500m", timeout=timeout), parts))
        for (p, ls), out in zip(parts, outs):
            for l in open(out, errors="replace"):
                if not l.startswith('"@@bad '):
                    continue
                w = json.loads(l)[6:].split()
                r = json.loads(ls[int(w[0]) - 1])
                at = int(w[1]) if len(w) > 1 else 0
                h = r.get("h", [])
                st = h[at - 1] if 0 < at <= len(h) else {}
                what = " ".join(w[2:])
                self.violate({"subject": module, "msg": "answer %d is not one the specification allows: %s %s" % (
                                  at, json.dumps(st or r)[:500], what),
                              "sig": "%s|%s|%s|%s" % (module, json.dumps(r.get("c", {}).get("k", "")).strip('"'),
                                                      (st.get("c") or {}).get("o", ""), what),
                              "judge": module, "consts": consts or {}, "args": list(args), "record": r,
                              "scenario": r.get("s") or {"c": r.get("c"), "h": [x["c"] for x in h]}}, driver)

    # ---- verdict ----------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) sig=(.+?) :: (.*)$", l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level="model_checking"):
        known, hit, new = self.known(), {}, []
        for v in self.violations:
            for sig, text in known:
                if re.fullmatch(sig, v.get("sig", "")):
                    hit[sig] = text
                    break
            else:
                new.append(v)
        for sig, text in hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if re.fullmatch(re.escape(self.pid) + r"-\d+\.json", f):
                os.unlink(os.path.join(rdir, f))
        shown = set()
        for i, v in enumerate(new[:20]):
            rp = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            if v.get("sig") in shown and i > 3:
                continue
            shown.add(v.get("sig"))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  %s: %s" % (v.get("subject", "?"), str(v.get("msg", ""))[:600]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "impl_steps_compared": self.steps,
               "samples": self.samples or ["(no sample)"]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "assumptions": self.notes, "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: states=%d transitions=%d traces=%d steps=%d violations=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.states, self.transitions, self.traces, self.steps, len(new),
            time.time() - self.t0))
        return 1 if new else 0
