#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--seed N] [--keep]

 1. TLC checks the specification itself (the design) on small instances.
 2. TLC prints histories of calls, one per transition of Gen.tla; with them
    and the tables that TLC exports, scenarios are made.
 3. The scenarios are run against the library as it is in /repo, in several
    builds, and every call's results are recorded.
 4. The recorded executions are checked against the specification: all by a
    fast rendering of it, and every execution that this rejects, plus as many
    others as fit, by TLC.  Only an execution of the real code that TLC
    rejects is a violation.

Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO") or "/repo"  # another tree only while working on the checks
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.environ.get("VERIF_DEV_EVIDENCE") or os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import CONFIGS, PLAN, SPEC_RUNS  # noqa: E402


class Trouble(Exception):
    """The check cannot give an answer."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def run(cmd, timeout, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


class Check:
    def __init__(self, prop, tier, seed, keep):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.plan = PLAN[prop]
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.tlc_states = self.tlc_trans = 0
        self.lock = threading.Lock()
        self.slots = threading.Semaphore(8)
        self.spec_results, self.rejected, self.samples = [], [], []
        self.validated = 0
        self.coverage = {}
        self.scan = set()
        env = dict(os.environ)
        for k in ("GOROOT", "GOTOOLDIR"):
            env.pop(k, None)
        env.update(PATH="/opt/veriftools/go1.26.10/bin:" + env.get("PATH", ""), GOTOOLCHAIN="local", GOSUMDB="off",
                   GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off", GOPATH="/opt/vp/go",
                   GOMODCACHE="/opt/vp/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE") or os.path.join(self.work, "gocache"),
                   HOME=os.environ.get("HOME", "/root"))
        self.env = env
        # go may want to rewrite go.mod/go.sum: give it a copy.
        self.src = os.path.join(self.work, "harness")
        shutil.copytree(HARNESS, self.src)
        if REPO != "/repo":
            mod = os.path.join(self.src, "go.mod")
            with open(mod) as f:
                t = f.read()
            with open(mod, "w") as f:
                f.write(t.replace("=> /repo", "=> " + REPO))

    # ---- building -------------------------------------------------------
    def build_tool(self):
        env = dict(self.env, CGO_ENABLED="0")
        self.tool = os.path.join(self.work, "tool.bin")
        rc, o, e = run(["go", "build", "-o", self.tool, "./tool"], 600, cwd=self.src, env=env)
        if rc:
            raise Trouble("cannot build the scenario tool:\n" + o + e)

    def build_driver(self, name):
        c = CONFIGS[name]
        out = os.path.join(self.work, "drive-" + name)
        env = dict(self.env, **c.get("env", {}))
        err = ""
        for extra in ("", "noctable"):
            tags = ",".join(t for t in (c.get("tags", ""), extra) if t)
            cmd = ["go", "build"] + c.get("flags", []) + (["-tags", tags] if tags else []) + ["-o", out, "./drive"]
            rc, o, e = run(cmd, 900, cwd=self.src, env=env)
            if rc == 0:
                return out
            err += o + e
            if env.get("CGO_ENABLED") == "0":
                break
        raise Trouble("cannot build the driver for %s:\n%s" % (name, err))

    def compiles(self, name, env, tags):
        """Whether the library itself builds; if not, an execution that no
        specification has."""
        cmd = ["go", "build"] + (["-tags", tags] if tags else []) + [
            "github.com/pjbgf/sha1cd" + x for x in ("", "/ubc", "/cgo")]
        rc, o, e = run(cmd, 900, cwd=self.src, env=dict(self.env, **env))
        if rc == 0:
            self.coverage.setdefault("compiled", []).append(name)
            return None
        path = os.path.join(self.work, "nobuild-%s.ndjson" % name)
        with open(path, "w") as f:
            f.write(json.dumps({"e": "Begin", "focus": [], "sc": name, "id": "build", "cfg": name}) + "\n")
            f.write(json.dumps({"e": "NoBuild", "msg": (o + e)[-1500:]}) + "\n")
        return {"file": path, "id": "build", "cfg": name, "why": "the library does not build: " + (o + e)[-800:]}

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=900, heap="2g", simulate=None):
        meta = tempfile.mkdtemp(prefix="md", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2",
               "-Djava.io.tmpdir=" + self.work,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += ["-config", cfg, module + ".tla"]
        with self.slots:
            rc, o, e = run(cmd, timeout, cwd=SPEC, env=dict(os.environ, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", o, re.M)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        with self.lock:
            self.tlc_states += dist
            self.tlc_trans += max(gen - 1, 0)
        return rc, o + e, dist, gen

    def export_tables(self):
        self.tables = os.path.join(self.work, "tables.json")
        rc, o, d, g = self.tlc("MCTables", "MCTables.cfg", {"TABLES": self.tables})
        if rc or not os.path.exists(self.tables):
            raise Trouble("the tables of the specification are not consistent:\n" + o[-3000:])

    def histories(self, name):
        path = os.path.join(self.work, name + ".hist")
        rc, o, d, g = self.tlc("Gen", name + ".cfg")
        if rc:
            raise Trouble("Gen failed:\n" + o[-3000:])
        with open(path, "w") as f:
            f.write(o)
        with self.lock:
            self.coverage.setdefault("generated_histories", {})[name] = sum(1 for l in o.splitlines() if l.startswith('"['))
        return path

    def apalache(self, r):
        out = tempfile.mkdtemp(prefix="apa", dir=self.work)
        cmd = ["apalache-mc", "check", "--length=0", "--inv=" + r["inv"], "--out-dir=" + out, "--write-intermediate=false", r["apalache"] + ".tla"]
        with self.slots:
            try:
                rc, o, e = run(cmd, r.get("timeout", 600), cwd=SPEC, env=dict(os.environ, JVM_ARGS="-Xmx3g"))
            except subprocess.TimeoutExpired:
                rc, o = -1, "timeout"
        shutil.rmtree(out, ignore_errors=True)
        if "The outcome is: NoError" in o and rc == 0:
            what = "holds for all values (Apalache)"
        elif rc == 12 or "The outcome is: Error" in o:
            raise Trouble("Apalache refutes %s:\n%s" % (r["inv"], o[-3000:]))
        else:
            # Not an answer about the code either way.
            what = "not decided: " + o[-200:]
        with self.lock:
            self.spec_results.append({"run": r["apalache"] + "/" + r["inv"], "result": what})

    def spec_run(self, r):
        if "apalache" in r:
            return self.apalache(r)
        rc, o, d, g = self.tlc(r["module"], r["cfg"], workers=r.get("workers", 4), timeout=r.get("timeout", 800),
                               heap=r.get("heap", "4g"), simulate=r.get("simulate"))
        want_violation = r.get("violates")
        if want_violation:
            ok = re.search(r"(Invariant|property) (%s) is violated" % want_violation, o) is not None
        else:
            ok = rc == 0 and "No error has been found" in o or (r.get("simulate") and rc == 0 and "is violated" not in o)
        if not ok:
            raise Trouble("the specification run %s gave an unexpected result:\n%s" % (r["cfg"], o[-4000:]))
        with self.lock:
            self.spec_results.append({"run": r["cfg"], "states": d, "generated": g,
                                      "result": ("witness found: %s" % want_violation) if want_violation else "all invariants hold"})

    # ---- running the library ---------------------------------------------
    def watched(self, cmd, out, timeout, stall, env):
        """Runs a driver; gives up when it has written nothing for `stall' seconds."""
        err = out + ".err"
        end, last, size = time.time() + timeout, time.time(), -1
        with open(err, "wb") as f:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=f, env=env)
            rc = None
            while rc is None:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                n = os.path.getsize(out) if os.path.exists(out) else -1
                now = time.time()
                if n != size:
                    size, last = n, now
                if now > end or now - last > stall:
                    p.kill()
                    p.wait()
                    rc = -999
        with open(err, "rb") as f:
            e = f.read().decode(errors="replace")
        return rc, e + (" did not come back" if rc == -999 else "")

    def drive(self, name, scn, res, timeout, stall=90):
        """Runs the scenarios; a scenario that kills the process, every time
        it is tried, is recorded as such."""
        c = CONFIGS[name]
        env = dict(os.environ, **c.get("run_env", {}))
        if name in self.scan:
            env["DRIVE_SCAN"] = self.tables
            env["GODEBUG"] = ",".join(x for x in (env.get("GODEBUG"), "clobberfree=1") if x)
        cmd0 = c.get("runner", []) + [self.drivers[name], name]
        todo, part, outs = scn, 0, []
        deadline = time.time() + timeout
        while True:
            out = "%s.%d" % (res, part)
            left = deadline - time.time()
            if left <= 0:
                raise Trouble("%s took too long" % name)
            hung = False
            rc, e = self.watched(cmd0 + [todo, out], out, left, stall, env)
            if rc == -999:
                hung = True
            outs.append(out)
            if rc == 0:
                break
            if rc == 2 and e.startswith("drive:") or (rc in (126, 127)):
                raise Trouble("driver %s: %s" % (name, e[-2000:]))
            done = set()
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        if line.endswith("\n"):
                            try:
                                done.add(json.loads(line)["id"])
                            except ValueError:
                                break
                # drop a torn last line
                with open(out) as f:
                    lines = [l for l in f if l.endswith("\n")]
                with open(out, "w") as f:
                    f.writelines(lines)
            rest = []
            with open(todo) as f:
                for line in f:
                    if json.loads(line)["id"] not in done:
                        rest.append(line)
            if not rest:
                if "DATA RACE" not in e:
                    raise Trouble("driver %s failed at the end: %s" % (name, e[-2000:]))
                raise Trouble("driver %s: race outside a scenario: %s" % (name, e[-3000:]))
            culprit, rest = rest[0], rest[1:]
            cid = json.loads(culprit)["id"]
            what = None
            if "WARNING: DATA RACE" in e and "pjbgf/sha1cd" in e:
                what = "data race: " + e[e.index("WARNING: DATA RACE"):][:1500]
            else:
                # Reproduce it alone, twice.
                solo = "%s.solo" % res
                with open(solo, "w") as f:
                    f.write(culprit)
                msgs = []
                for _ in range(2):
                    if hung and msgs:
                        msgs.append(msgs[0])
                        break
                    try:
                        r2, o2, e2 = run(cmd0 + [solo, solo + ".out"], stall, env=env)
                    except subprocess.TimeoutExpired:
                        r2, e2 = -999, "did not come back within %d s" % stall
                    if r2 == 0:
                        break
                    if "cannot allocate" in e2 or "out of memory" in e2 or r2 == -9:
                        raise Trouble("driver %s ran out of memory: %s" % (name, e2[-1500:]))
                    msgs.append("exit %d: %s" % (r2, e2[-600:]))
                if len(msgs) == 2:
                    what = "the process died: " + msgs[1]
                elif hung:
                    raise Trouble("driver %s hung, not reproducible, in %s" % (name, cid))
                else:
                    raise Trouble("driver %s died (exit %d) in %s, not reproducible: %s" % (name, rc, cid, e[-1500:]))
            log("%s: scenario %s: %s" % (name, cid, what.splitlines()[0][:200]))
            extra = "%s.%d" % (res, part + 1)
            with open(extra, "w") as f:
                f.write(json.dumps({"id": cid, "cfg": name, "obs": [{"panic": what}]}) + "\n")
            outs.append(extra)
            part += 2
            if hung or part > 40:
                log("%s: too many crashes, or one hang: not going on" % name)
                break
            todo = "%s.todo%d" % (res, part)
            with open(todo, "w") as f:
                f.writelines(rest)
            if not rest:
                break
        with open(res, "w") as f:
            for o in outs:
                if os.path.exists(o):
                    with open(o) as g:
                        shutil.copyfileobj(g, f)
        return res

    def drives(self, name, scn, res, p):
        """The same, by several processes at once."""
        k = p.get("procs", 1)
        if k == 1:
            return self.drive(name, scn, res, p.get("timeout", 500), p.get("stall", 90))
        with open(scn) as f:
            lines = f.readlines()
        files = []
        for i in range(min(k, len(lines))):
            files.append("%s.in%d" % (res, i))
            with open(files[-1], "w") as f:
                f.writelines(lines[i::k])
        with cf.ThreadPoolExecutor(k) as ex:
            outs = list(ex.map(lambda x: self.drive(name, x, x + ".out", p.get("timeout", 500), p.get("stall", 90)), files))
        with open(res, "w") as f:
            for o in outs:
                with open(o) as g:
                    shutil.copyfileobj(g, f)
        return res

    def calibrate(self):
        """Finds out in which builds substituting the table of differences
        has an effect at all."""
        scn = os.path.join(self.work, "cal.jsonl")
        rc, o, e = run([self.tool, "gen", "-tables", self.tables, "-seed", str(self.seed), "-fams", "cal", "-out", scn], 120)
        if rc:
            raise Trouble("gen: " + e)
        self.live = {}

        def count(n, tag):
            res = self.drive(n, scn, os.path.join(self.work, "cal-%s%s" % (n, tag)), 300)
            rc, o, e = run([self.tool, "calibrated", scn, res], 60)
            return list(json.loads(o).values())[0]

        def one(n):
            m = count(n, "")
            if min(m.get("go", 0), m.get("cgo", 0)) < 64:  # 32 vectors, in two ways
                # Not everywhere: look for the table in memory instead.
                self.scan.add(n)
                try:
                    x = count(n, "-scan")
                except Trouble as t:
                    log("%s: %s" % (n, str(t)[:200]))
                    x = {}
                if sum(x.values()) > sum(m.values()) and all(x.get(b, 0) >= m.get(b, 0) for b in m):
                    log("%s: table found in memory: %s instead of %s" % (n, x, m))
                    m = x
                else:
                    self.scan.discard(n)
            return n, m
        with cf.ThreadPoolExecutor(8) as ex:
            for n, m in ex.map(one, self.drivers):
                self.live[n] = m
        self.coverage["armed_vectors_recognised"] = self.live

    def part(self, i, p):
        tier = self.tier
        groups = {}
        for cname, fams in p["run"][tier].items():
            if cname in self.drivers:
                groups.setdefault(fams, []).append(cname)

        def one(args):
            n, (fams, names) = args
            scn = os.path.join(self.work, "p%d-%d.jsonl" % (i, n))
            cmd = [self.tool, "gen", "-tables", self.tables, "-seed", str(self.seed), "-fams", fams, "-out", scn, "-repo", REPO,
                   "-backends", p.get("backends", "go,cgo"),
                   "-hist", ",".join("%s=%s" % kv for kv in self.hist.items())]
            rc, o, e = run(cmd, 600)
            if rc:
                raise Trouble("gen: " + e[-3000:])
            with cf.ThreadPoolExecutor(4) as ex:
                rs = list(ex.map(lambda c: self.drives(c, scn, "%s.%s" % (scn, c), p), names))
            return scn, rs
        # Where substituting the table does nothing, those scenarios say nothing.
        dead = ",".join("%s/%s" % (c, b) for c in self.drivers for b in ("go", "cgo") if not self.live.get(c, {}).get(b))
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, enumerate(groups.items())))
        log("part %d: executed" % i)

        def judge(args):
            n, (scn, rs) = args
            d = os.path.join(self.work, "t%d-%d" % (i, n))
            os.mkdir(d)
            cmd = [self.tool, "judge", "-mode", p["mode"], "-focus", p["focus"], "-tables", self.tables, "-scn", scn,
                   "-res", ",".join(rs), "-dir", d, "-shards", str(p.get("shards", 3)),
                   "-budget", str(p["budget"][tier]), "-seed", str(self.seed), "-dead", dead]
            rc, o, e = run(cmd, 800)
            if rc:
                raise Trouble("judge: " + e[-3000:])
            return json.loads(o)
        with cf.ThreadPoolExecutor(4) as ex:
            sums = list(ex.map(judge, enumerate(results)))
        return sums

    def validate(self, module, path, timeout=800, heap="3g"):
        """(accepted, first unmatched line, mismatch) of one trace file."""
        rc, o, d, g = self.tlc(module, module + ".cfg", {"TRACE": path}, timeout=timeout, heap=heap)
        if rc == 0 and "No error has been found" in o:
            return True, 0, ""
        if "Postcondition Accepted" in o:
            mm = [l for l in o.splitlines() if l.startswith('"{')]
            return False, d, (json.loads(mm[-1]) if mm else "")
        raise Trouble("TLC could not check %s:\n%s" % (path, o[-3000:]))

    # ---- the whole ---------------------------------------------------------
    def go(self):
        plan, tier = self.plan, self.tier
        names = []
        for p in plan["parts"]:
            for c in p["run"][tier]:
                if c not in names:
                    names.append(c)
        names = [n for n in names if self.usable(n)]
        need_hist = sorted(set(re.findall(r"hist[12]", json.dumps([p["run"][tier] for p in plan["parts"]]))))
        with cf.ThreadPoolExecutor(12) as ex:
            ft = ex.submit(self.build_tool)
            fe = ex.submit(self.export_tables)
            fb = {n: ex.submit(self.build_driver, n) for n in names}
            fh = {h: ex.submit(self.histories, h.replace("hist", "Gen")) for h in need_hist}
            fs = [ex.submit(self.spec_run, r) for r in SPEC_RUNS[tier] if self.prop in r["props"]]
            fc = [ex.submit(self.compiles, n, e, t) for n, e, t in plan.get("compile", {}).get(tier, [])]
            ft.result(), fe.result()
            self.drivers = {}
            for n, f in fb.items():
                try:
                    self.drivers[n] = f.result()
                except Trouble as e:
                    if n == "native":
                        raise
                    log("build %s is left out: %s" % (n, str(e)[-1500:]))
                    self.coverage.setdefault("builds_left_out", []).append(n)
                    c = CONFIGS[n]
                    fc.append(ex.submit(self.compiles, n, c.get("env", {}), c.get("tags", "")))
            self.hist = {h: f.result() for h, f in fh.items()}
            log("built: " + " ".join(self.drivers))
            self.calibrate()
            log("calibrated: %s" % self.live)
            sums = []
            for i, p in enumerate(plan["parts"]):
                sums.append(self.part(i, p))
            jobs = []
            controls = []
            for p, ss in zip(plan["parts"], sums):
                module = "TraceDigest" if p["mode"] == "concrete" else "TraceIdeal"
                asp = set()
                for s in ss:
                    for b in s["false"] or []:
                        a = os.path.basename(b["file"])
                        if a not in asp:
                            asp.add(a)
                            controls.append((module, b))
                    for b in s["bad"] or []:
                        jobs.append((module, b["file"], b, 1))
                    for sh in s["shards"] or []:
                        jobs.append((module, sh["file"], None, sh["traces"]))
                    self.samples += s["samples"] or []
            for f in fc:
                b = f.result()
                if b and plan.get("compile"):
                    jobs.append(("TraceIdeal", b["file"], b, 1))
            log("executions judged; %d traces to TLC" % len(jobs))
            big = len(jobs) <= 12
            fut = [(j, ex.submit(self.validate, j[0], j[1], 850, "6g" if big else "3g")) for j in jobs]
            cut = [((m, b), ex.submit(self.validate, m, b["file"], 850, "2g")) for m, b in controls]
            for (module, path, bad, n), f in fut:
                ok, line, mm = f.result()
                if ok:
                    if bad:
                        raise Trouble("TLC accepts what the fast rendering rejects: %s" % bad)
                    self.validated += n
                    continue
                self.rejected.append(self.keep_replay(module, path, line, mm, bad))
            for (module, b), f in cut:
                ok, line, mm = f.result()
                if ok:
                    raise Trouble("TLC accepts a falsified execution: %s" % b)
                self.coverage.setdefault("falsified_executions_rejected", []).append("%s: %s" % (b["id"], b["why"][:120]))
            for f in fs:
                f.result()
        ex_total = sum(s["executions"] for ss in sums for s in ss)
        bad_total = sum(s["bad_total"] for ss in sums for s in ss)
        calls, cmp_, hits, bycfg = {}, 0, 0, {}
        for ss in sums:
            for s in ss:
                for k, v in s["stats"]["calls"].items():
                    calls[k] = calls.get(k, 0) + v
                cmp_ += s["stats"]["comparisons"]
                hits += s["stats"]["sums_with_collision"]
                for k, v in s["by_config"].items():
                    bycfg[k] = bycfg.get(k, 0) + v
        self.coverage.update(
            states=self.tlc_states, transitions=self.tlc_trans, traces_validated_against_impl=self.validated,
            executions_of_the_library=ex_total, executions_rejected=bad_total, calls=calls, comparisons=cmp_,
            sums_reporting_a_collision=hits, executions_by_build=bycfg, specification_runs=self.spec_results,
            samples=(self.samples[:3] or [{"note": "no short execution to show"}]))

    def usable(self, n):
        c = CONFIGS[n]
        if c.get("unless_cpu") and c["unless_cpu"] in open("/proc/cpuinfo").read():
            return False
        if c.get("runner") and not shutil.which(c["runner"][0]):
            log("%s: %s is not installed, left out" % (n, c["runner"][0]))
            return False
        if c.get("env", {}).get("CC") and not shutil.which(c["env"]["CC"]):
            log("%s: no compiler, left out" % n)
            return False
        return True

    def keep_replay(self, module, path, line, mm, bad):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "%s-%d.ndjson" % (self.prop, len(self.rejected)))
        with open(path) as f:
            lines = f.readlines()
        # From the start of the scenario the rejected call belongs to.
        start = 0
        for i in range(min(line, len(lines)) - 1, -1, -1):
            e = json.loads(lines[i])
            if e["e"] == "Begin":
                start = i
                if module == "TraceDigest" or i == 0:
                    break
                prevb = [json.loads(x) for x in lines[:i] if x.startswith('{') and '"e":"Begin"' in x]
                if not prevb or prevb[-1].get("sc") != e.get("sc"):
                    break
        with open(dst, "w") as f:
            f.writelines(lines[start:min(line, len(lines))])
        info = {"property": self.prop, "module": module, "rejected_call": json.loads(lines[min(line, len(lines)) - 1]),
                "mismatch": mm, "fast": bad,
                "how": "cd /verif/spec && TRACE=%s java -cp %s tlc2.TLC -config %s.cfg %s.tla" % (dst, JARS, module, module)}
        with open(dst[:-7] + ".json", "w") as f:
            json.dump(info, f, indent=1)
        begin = json.loads(lines[start])
        log("rejected by %s: scenario %s, build %s: %s %s" % (module, begin.get("id"), begin.get("cfg"),
            (bad or {}).get("why", ""), json.dumps(mm)[:400]))
        return dst

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.plan.get("level", "model_checking"),
              "coverage": self.coverage, "assumptions": self.plan.get("assumptions", []),
              "wall_s": round(time.time() - T0, 1), "violations": violations}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    for f in glob.glob(os.path.join(EVID, "replay", a.prop + "-*")):
        os.unlink(f)
    c = Check(a.prop, a.tier, a.seed, a.keep)
    try:
        c.go()
        c.evidence(len(c.rejected))
        if c.rejected:
            print("VIOLATION property=%s replay=%s" % (a.prop, c.rejected[0]), flush=True)
            return 1
        log("%s holds on everything explored: %d executions, %d validated by TLC, %d states" % (
            a.prop, c.coverage["executions_of_the_library"], c.validated, c.tlc_states))
        return 0
    except (Trouble, subprocess.TimeoutExpired) as e:
        # A violation already shown on the real code stands.
        if c.rejected:
            c.coverage.setdefault("states", c.tlc_states)
            c.evidence(len(c.rejected))
            log("after the violation: %s" % str(e)[-800:])
            print("VIOLATION property=%s replay=%s" % (a.prop, c.rejected[0]), flush=True)
            return 1
        print("no answer: %s" % e, flush=True)
        return 3
    finally:
        if c.keep:
            print("kept", c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
