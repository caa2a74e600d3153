"""Shared machinery of the checks: build the driver, run cases on the real code,
run TLC on the specifications, compare, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the machinery failed: exit 2, never a violation"""


class EvalError(CheckError):
    """TLC could not evaluate the specification on what it was given"""


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            raise CheckError("VERIF_TIER=" + self.tier)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.accepting = {}
        self.samples = []
        self.stages = []
        self.violations = []     # (what, record)
        self.assumptions = []
        self.drv = None
        self.n = 0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self.n += 1
        return os.path.join(self.work, "%03d-%s" % (self.n, name))

    def build(self, *flags):
        out = os.path.join(self.work, "driver")
        p = subprocess.run(["bash", os.path.join(VERIF, "driver", "build.sh"), out] + list(flags),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            raise CheckError("driver does not build:\n" + p.stdout[-3000:])
        self.drv = out

    # ---- real code -----------------------------------------------------
    def drive(self, cases):
        """run the cases on the real code; returns the observations"""
        if not self.drv:
            self.build()
        cf, of = self.path("cases"), self.path("obs")
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        p = subprocess.run([self.drv, "run", cf, of], stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise CheckError("driver: exit %d %s" % (p.returncode, p.stderr[-2000:]))
        obs = [json.loads(l) for l in open(of)]
        if len(obs) != len(cases):
            raise CheckError("driver: %d answers for %d cases" % (len(obs), len(cases)))
        for c, o in zip(cases, obs):
            if isinstance(o, dict) and "drivererror" in o:
                raise CheckError("driver: %s on %s" % (o["drivererror"], json.dumps(c)[:1000]))
        return obs

    def split_faults(self, cases, obs, count=True):
        """panics, crashes and hangs are behaviours no specification here has"""
        good = []
        for c, o in zip(cases, obs):
            if isinstance(o, dict) and "fault" in o:
                if not count:
                    continue
                self.violation("%s: %s" % (o["fault"], o.get("msg", "")[:200]), {"case": c, "obs": o})
            elif isinstance(o, dict) and "skipped" in o:
                continue
            else:
                good.append((c, o))
        return good

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, workers=8, timeout=800, simulate=None, extra=()):
        meta = self.path("tlc")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx%s" % os.environ.get("VERIF_XMX", "8g"),
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        if p.returncode != 0:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith(("<<\"V\"", "\"CASE")))
            raise (EvalError if p.returncode in (75, 76, 77) else CheckError)(
                "TLC failed on %s (exit %d):\n%s" % (module, p.returncode, tail[-6000:]))
        m = re.findall(r"^([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out, re.M)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            self.states += dist
            self.transitions += gen
        return out, gen, dist

    def cases_from(self, out):
        cs = []
        for l in out.splitlines():
            if l.startswith('"CASE '):
                cs.append(json.loads(json.loads(l)[5:]))
        return cs

    def validate(self, module, recs, ids=None, timeout=800, env=None, xdesc=None):
        """trace validation: TLC gives one verdict per record; a record whose verdict
        names this property is a violation. Returns the list of verdict sets."""
        if not recs:
            return []
        vf = self.path("trace")
        with open(vf, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        e = {"VF": vf}
        e.update(env or {})
        t = time.time()
        try:
            out, gen, dist = self.tlc(module, e, timeout=timeout)
        except EvalError as x:
            # an observation outside of everything the specification speaks about: isolate it
            if time.time() - self.t0 > 500:
                raise
            if len(recs) == 1:
                self.violation("no behaviour of %s has this observation" % module, recs[0])
                self.traces += 1
                return [set(ids or {self.pid})]
            res, h, n = [], max(1, len(recs) // 8), len(self.violations)
            for k in range(0, len(recs), h):
                res += self.validate(module, recs[k:k + h], ids, timeout, env, "(isolating)")
                if len(self.violations) > n:
                    return res
            raise x
        verdict = {}
        for m in re.finditer(r'^<<"V", (\d+), \{(.*?)\}>>$', out, re.M):
            verdict[int(m.group(1))] = set(re.findall(r'"([^"]*)"', m.group(2)))
        if len(verdict) != len(recs):
            raise CheckError("%s: %d verdicts for %d records" % (module, len(verdict), len(recs)))
        res = [verdict[i + 1] for i in range(len(recs))]
        ids = ids or {self.pid}
        bad = 0
        for r, v in zip(recs, res):
            if v & ids:
                bad += 1
                self.violation("rejected by %s" % module, r)
        self.traces += len(recs)
        self.stages.append({"stage": "trace validation " + module + (" " + xdesc if xdesc else ""), "records": len(recs),
                            "rejected": bad, "states": dist, "wall_s": round(time.time() - t, 1)})
        return res

    def explore(self, module, desc, cfg=None, env=None, timeout=800, simulate=None, workers=8):
        """model checking: invariants of the specification; returns printed CASEs"""
        t = time.time()
        out, gen, dist = self.tlc(module, env, cfg=cfg, timeout=timeout, simulate=simulate, workers=workers)
        cs = self.cases_from(out)
        self.stages.append({"stage": "model checking %s: %s" % (module, desc), "states": dist, "transitions": gen,
                            "behaviours_emitted": len(cs), "wall_s": round(time.time() - t, 1)})
        return cs

    def replay(self, module, cases, obs_to_cmp, desc="", min_cases=1, faults=True):
        """spec -> code: each case carries exp; obs_to_cmp(case, obs) gives what to compare"""
        if len(cases) < min_cases:
            raise CheckError("%s emitted only %d behaviours" % (module, len(cases)))
        t = time.time()
        obs = self.drive(cases)
        for c, o in list(zip(cases, obs))[-2:]:
            self.sample({"case": c, "obs": o})
        bad = 0
        for c, o in self.split_faults(cases, obs, faults):
            got = obs_to_cmp(c, o)
            if got != c["exp"]:
                bad += 1
                self.violation("behaviour of %s not followed" % module, {"case": c, "obs": o, "got": got})
        self.replayed += len(cases)
        self.stages.append({"stage": "replay of %s into the code %s" % (module, desc), "behaviours": len(cases),
                            "mismatches": bad, "wall_s": round(time.time() - t, 1)})

    # ---- verdict -------------------------------------------------------
    def violation(self, what, rec):
        self.violations.append((what, rec))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = load_known(self.pid)
        fresh = []
        for what, rec in self.violations:
            k = match_known(known, rec)
            if k:
                k["hit"] = True
            else:
                fresh.append((what, rec))
        for k in known:
            if k.get("hit"):
                log("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces + self.replayed,
                           "behaviours_replayed_into_impl": self.replayed,
                           "traces_recorded_from_impl": self.traces,
                           "stages": self.stages, "samples": self.samples, **self.accepting},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n, (what, rec) in enumerate(fresh[:5]):
            p = os.path.join(EVID, "%s-violation-%d.json" % (self.pid, n + 1))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "record": rec}, f, indent=1)
            log("  %s: %s" % (what, json.dumps(rec)[:600]))
            log("VIOLATION property=%s replay=%s" % (self.pid, p))
        if fresh:
            log("%s: %d violations" % (self.pid, len(fresh)))
            return 1
        log("%s: held; %d states, %d transitions, %d traces validated, %d behaviours replayed, %.1f s"
            % (self.pid, self.states, self.transitions, self.traces, self.replayed, time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            d = json.loads(l)
            if d.get("property") == pid and d.get("status") == "finding":
                out.append(d)
    return out


def match_known(known, rec):
    s = json.dumps(rec.get("case", rec), sort_keys=True)
    for k in known:
        if "inputs" in k and isinstance(rec.get("case"), dict) and "ws" in rec["case"] and isinstance(rec.get("obs"), dict):
            # an input and the wrong answer it gets
            if [" ".join(bytes(w["v"]).decode() for w in rec["case"]["ws"]), rec["obs"].get("got")] in k["inputs"]:
                return k
        if k.get("case") is not None and json.dumps(k["case"], sort_keys=True) == s:
            return k
    return None


def main(checks):
    pid = sys.argv[1]
    if pid not in checks:
        log("unknown property " + pid)
        sys.exit(2)
    ctx = None
    try:
        ctx = Ctx(pid)
        for f in os.listdir(EVID) if os.path.isdir(EVID) else []:
            if f.startswith(pid + "-violation"):
                os.remove(os.path.join(EVID, f))
        checks[pid](ctx)
        rc = ctx.finish()
    except CheckError as e:
        log("ERROR: %s" % e)
        # a violation already observed on the real code stands
        if ctx and ctx.violations:
            rc = ctx.finish()
        else:
            rc = 2
    finally:
        if ctx:
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)
