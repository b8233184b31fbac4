"""Driver library: runs TLC over the specifications in /verif/spec, builds the conformance
harness from /repo's working tree, replays TLC's behaviours into it, has TLC validate the
traces it records, and writes the evidence file."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CARGO_ENV = {
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "RUSTFLAGS": "--cfg otel_verif --cap-lints=warn",
}


class ToolError(Exception):
    pass


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.stages, self.failures, self.assumptions = [], [], [], []
        self.action_counts = {}
        self.work = tempfile.mkdtemp(prefix=f"vh-{prop}-")
        self.known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
        self.known_seen = {}
        self.bin = None

    # ---------------------------------------------------------------- building
    def build(self, crate="harness", binname="vh", features=None):
        env = dict(os.environ)
        env.update(CARGO_ENV)
        td = os.path.join(BUILD, "target")
        os.makedirs(td, exist_ok=True)
        t = time.time()
        p = subprocess.run(
            ["cargo", "build", "--offline", "--quiet", "--target-dir", td]
            + (["--features", features] if features else []),
            cwd=os.path.join(ROOT, crate), env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-4000:])
        self.bin = os.path.join(td, "debug", binname)
        if crate != "harness":      # built in several configurations: keep each
            own = os.path.join(self.work, f"{binname}-{features or 'default'}")
            shutil.copy2(self.bin, own)
            self.bin = own
        self.stages.append({"stage": "build", "s": round(time.time() - t, 1)})
        return self.bin

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), workers=1, timeout=600, env=None, want_lines=False,
            heap="4g", count=True):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", f"-Xmx{heap}", "-cp", JAVA_CP, "-Dtlc2.TLC.stopAfter=100000",
               "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-nowarning", "-noGenerateSpecTE",
               "-config", cfg, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        out = os.path.join(self.work, f"{module}-{os.path.basename(md)}.out")
        with open(out, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT,
                                   timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(md, ignore_errors=True)
        lines, rest = [], []
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"@@'):
                    lines.append(json.loads(l)[2:])
                else:
                    rest.append(l)
        os.unlink(out)
        text = "".join(rest)
        m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", text)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        ms = re.search(r"The number of states generated: (\d+)", text)
        if not m and ms:
            gen = dist = int(ms.group(1))
        if count:
            self.states += dist
            self.transitions += gen
        self.stages.append({"stage": "tlc", "module": module, "cfg": os.path.basename(cfg), "rc": rc,
                            "states": dist, "generated": gen, "s": round(time.time() - t, 1)})
        return rc, lines, text

    def model_check(self, module, cfg, workers=8, timeout=600, expect_violation=None, args=()):
        """Exhaustive check of a specification.  A violation here is a defect of the
        specification, not of the code: a tool error (or the expected outcome, for the
        deliberately broken variants that show the invariants are not vacuous)."""
        rc, _, text = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args)
        if expect_violation:
            if expect_violation not in text:
                raise ToolError(f"{module}/{cfg}: expected TLC to report '{expect_violation}':\n{text[-3000:]}")
        elif rc != 0:
            raise ToolError(f"{module}/{cfg}: TLC rc={rc}\n{text[-3000:]}")
        return text

    def generate(self, module, cfg, timeout=600, sim=None, limit=None, heap="4g"):
        """Behaviours of a specification: every transition of its state graph (BFS), or
        random walks (sim = (num, depth))."""
        args = []
        if sim:
            args = ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(self.seed)]
        rc, lines, text = self.tlc(module, cfg, args=args, timeout=timeout, heap=heap)
        if rc != 0:
            raise ToolError(f"{module}/{cfg}: TLC rc={rc}\n{text[-3000:]}")
        if not lines:
            raise ToolError(f"{module}/{cfg}: no behaviour generated\n{text[-3000:]}")
        beh = leaves(lines)
        if limit and len(beh) > limit:
            import random
            r = random.Random(self.seed)
            beh = r.sample(beh, limit)
        for b in beh:
            for op in re.findall(r'"op":"(\w+)"', b):
                k = f"{module}.{op}"
                self.action_counts[k] = self.action_counts.get(k, 0) + 1
        return beh

    # ---------------------------------------------------------------- replay into the code
    def replay(self, suite, behaviours, env=None, jobs=8, timeout=800, describe=None, batches=1):
        if not behaviours:
            raise ToolError(f"{suite}: nothing to replay")
        bf = os.path.join(self.work, f"{suite}.ndjson")
        rf = os.path.join(self.work, f"{suite}.res.json")
        with open(bf, "w") as f:
            for b in behaviours:
                f.write((b if isinstance(b, str) else canon(b)) + "\n")
        e = dict(os.environ)
        e["VH_JOBS"] = str(jobs)
        e.update(env or {})
        t = time.time()
        if os.path.exists(rf):
            os.unlink(rf)
        try:
            p = subprocess.run([self.bin, "replay", suite, bf, rf], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"replay {suite}: timeout")
        if not os.path.exists(rf):
            # the process died (abort, stack overflow...): that is the code's doing
            self.fail({"suite": suite, "why": {"crash": p.returncode, "out": p.stdout[-1500:]},
                       "behaviour": load_behaviour(behaviours[0])})
            return
        r = json.load(open(rf))
        self.traces += r["done"]
        self.steps += r["steps"]
        self.stages.append({"stage": "replay", "suite": suite, "behaviours": r["total"],
                            "steps": r["steps"], "failed": r["nfail"], "s": round(time.time() - t, 1)})
        if len(self.samples) < 4:
            self.samples.append({"suite": suite, "behaviour": load_behaviour(behaviours[len(behaviours) // 2])})
        for f in r["failures"]:
            w = f["why"]
            if isinstance(w.get("panic"), str) and "harness:" in w["panic"]:
                raise ToolError(f"replay {suite}: {w['panic']}")
            f["suite"] = suite
            self.fail(f)

    # ---------------------------------------------------------------- traces from the code
    def record(self, recorder, args, timeout=600, env=None, tag=""):
        of = os.path.join(self.work, f"rec-{recorder}{tag}.ndjson")
        a = dict(args)
        a.setdefault("seed", self.seed)
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run([self.bin, "record", recorder, of, json.dumps(a)], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.fail({"suite": recorder, "why": {"hang": f"recording did not finish within {timeout} s"}})
            return []
        if p.returncode != 0:
            if "harness:" in p.stdout:
                raise ToolError(f"record {recorder}: {p.stdout[-2000:]}")
            self.fail({"suite": recorder, "why": {"crash": p.returncode, "out": p.stdout[-2000:]}})
            return []
        traces = [json.loads(l) for l in open(of)]
        self.stages.append({"stage": "record", "recorder": recorder, "traces": len(traces),
                            "s": round(time.time() - t, 1)})
        return traces

    def record_sharded(self, recorder, scenarios, shards=8, timeout=600):
        """Runs the scenarios in `shards` processes; returns the recorded traces (a scenario
        whose process died leaves a failure behind)."""
        def run(i):
            sf = os.path.join(self.work, f"scen-{recorder}-{i}.ndjson")
            with open(sf, "w") as f:
                for s in scenarios[i::shards]:
                    f.write((s if isinstance(s, str) else canon(s)) + "\n")
            return self.record(recorder, {"file": sf}, timeout=timeout, tag=f"-{i}")
        with ThreadPoolExecutor(max_workers=shards) as ex:
            parts = list(ex.map(run, range(shards)))
        return [t for p in parts for t in p]

    def validate(self, module, cfg, traces, shards=8, timeout=600, label=None, heap="3g"):
        """Trace validation: TLC decides, for each recorded trace (a list of events), whether
        it is a behaviour of the specification `module`."""
        if not traces:
            return []
        shards = max(1, min(shards, (len(traces) + 24) // 25))
        parts = [traces[i::shards] for i in range(shards)]
        bad = []

        def run(i):
            tf = os.path.join(self.work, f"{module}-{label or ''}{i}.ndjson")
            with open(tf, "w") as f:
                for tr in parts[i]:
                    f.write(canon(tr) + "\n")
            return self.tlc(module, cfg, workers=1, timeout=timeout, env={"TRACE_FILE": tf}, heap=heap)

        with ThreadPoolExecutor(max_workers=shards) as ex:
            res = list(ex.map(run, range(shards)))
        for i, (rc, lines, text) in enumerate(res):
            if rc != 0:
                raise ToolError(f"{module}/{cfg}: TLC rc={rc}\n{text[-3000:]}")
            acc = set()
            prog = {}
            for l in lines:
                if l.startswith("ACCEPT "):
                    acc.add(int(l.split()[1]))
                elif l.startswith("AT "):
                    _, tid, k = l.split()
                    prog[int(tid)] = max(prog.get(int(tid), 0), int(k))
            for k, tr in enumerate(parts[i], start=1):
                if k not in acc:
                    bad.append((tr, prog.get(k)))
        self.traces += len(traces) - len(bad)
        self.steps += sum(len(t) for t in traces)
        if len(self.samples) < 4:
            self.samples.append({"trace_spec": module, "recorded_trace": traces[len(traces) // 2]})
        for tr, at in bad:
            f = {"suite": label or module, "trace": tr}
            if at is None:
                f["why"] = {"rejected": "trace is not a behaviour of the specification"}
            else:
                f["why"] = {"explained_events": at, "event": tr[at] if at < len(tr) else None}
            self.fail(f)
        return bad

    # ---------------------------------------------------------------- results
    def fail(self, f):
        for k in self.known:
            if known_match(k, f):
                self.known_seen[k["id"]] = k
                return
        self.failures.append(f)

    def finish(self):
        for k in self.known_seen.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "steps_compared": self.steps, "action_coverage": self.action_counts,
                "stages": self.stages, "samples": self.samples[:4],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.failures),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        rp = os.path.join(EVID, f"{self.prop}.violation.json")
        if os.path.exists(rp):
            os.unlink(rp)
        if self.failures:
            with open(rp, "w") as f:
                json.dump(self.failures[:50], f, indent=1)
            print(f"first of {len(self.failures)} failures: {canon(self.failures[0])[:1500]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"OK property={self.prop} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} steps={self.steps} wall={ev['wall_s']}s")
        return 0


def load_behaviour(b):
    return json.loads(b) if isinstance(b, str) else b


def leaves(lines):
    """Drops behaviours (JSON arrays, as TLC printed them) that are proper prefixes of others,
    and duplicates: in sorted order an extension follows its prefix directly."""
    q = sorted({l[:-1] for l in lines})
    return [b + "]" for i, b in enumerate(q) if i + 1 == len(q) or not q[i + 1].startswith(b + ",")]


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(k, f):
    """A known finding matches a failure only if every listed field pattern is found."""
    m = k.get("match", {})
    if not m:
        return False
    text = canon(f)
    if "suite" in m and m["suite"] != f.get("suite"):
        return False
    if "why_re" in m and not re.search(m["why_re"], canon(f.get("why"))):
        return False
    if "all_re" in m and not re.search(m["all_re"], text):
        return False
    return True
