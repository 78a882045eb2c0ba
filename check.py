#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's working tree, explores the specification
with TLC, runs behaviours of the specification and random ones on the real code, and lets TLC check
every record of what the code did against the specification.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: error."""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PART = 60_000_000      # bytes of a trace that TLC is given at once
CPUS = 8
T0 = time.time()


class Broken(Exception):
    """The check itself could not do its work."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = self.tier == "quick"
        self.dir = os.path.join(HERE, "build", "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.budget = 800 if self.quick else 6 * 3600
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_runs": [], "conformance_runs": [], "records_by_kind": {}}
        self.assumptions = []
        self.n = 0

    # ---- pieces -------------------------------------------------------------
    def left(self):
        return max(10, self.budget - (time.time() - T0))

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def build(self):
        with open(os.path.join(HERE, "build", ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(["bash", os.path.join(HERE, "build.sh")], capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken("the harness does not build:\n" + r.stderr[-6000:])
            # a copy of its own, so that another check may rebuild meanwhile
            self.bin = os.path.join(self.dir, "vharness")
            shutil.copy(r.stdout.strip().splitlines()[-1], self.bin)

    def tlc(self, module, constants, env=None, invariants=(), properties=(), extra=(), spec="Spec"):
        """Runs TLC; returns (verdict, info). verdict: ok / invariant / property"""
        self.n += 1
        tag = "%s-%d" % (module, self.n)
        cfg = os.path.join(self.dir, tag + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
            if constants:
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items()))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for p in properties:
                f.write("PROPERTY %s\n" % p)
            for e in extra:
                f.write(e + "\n")
        out = os.path.join(self.dir, tag + ".out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(CPUS),
               "-noGenerateSpecTE", "-metadir", os.path.join(self.dir, "md-" + tag), "-config", cfg, module + ".tla"]
        t = time.time()
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env={**os.environ, **(env or {})},
                                    timeout=self.left()).returncode
            except subprocess.TimeoutExpired:
                raise Broken("TLC did not finish in time on " + tag)
        shutil.rmtree(os.path.join(self.dir, "md-" + tag), ignore_errors=True)
        info = {"out": out, "seconds": round(time.time() - t, 1)}
        text = []
        scripts = 0
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"SCRIPT '):
                    scripts += 1
                else:
                    text.append(line)
        text = "".join(text)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        broken = re.search(r"Invariant \w+ is violated", text)     # by an initial state, maybe: then TLC counts nothing
        if not m and not broken:
            raise Broken("TLC failed on %s:\n%s" % (tag, text[-3000:]))
        info["generated"], info["distinct"] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        info["scripts"] = scripts
        info["text"] = text
        verdict = "invariant" if broken else {0: "ok", 12: "invariant", 13: "property"}.get(rc)
        if verdict is None:
            raise Broken("TLC failed (exit %s) on %s:\n%s" % (rc, tag, text[-3000:]))
        return verdict, info

    def model(self, module, constants, invariants=(), properties=(), view=None, emit=None, whole=False):
        """Model checks the specification itself. Returns the file with the behaviours it printed."""
        extra = []
        if view:
            extra.append("VIEW " + view)
        if emit:
            extra.append("ACTION_CONSTRAINT " + emit)
        verdict, info = self.tlc(module, constants, invariants=invariants, properties=properties, extra=extra)
        if verdict != "ok":
            raise Broken("the specification %s does not have its properties:\n%s" % (module, info["text"][-3000:]))
        self.cov["states"] += info["distinct"]
        self.cov["transitions"] += info["generated"]
        self.cov["model_runs"].append({"module": module, "constants": constants, "distinct_states": info["distinct"],
                                       "states_generated": info["generated"], "seconds": info["seconds"],
                                       "checked": list(invariants) + list(properties)})
        if emit:
            return self.scripts_of(info["out"], whole)

    def scripts_of(self, out, whole):
        """The behaviours TLC printed; unless they are wanted as a whole, those are left out that another one begins with."""
        seqs = []
        with open(out) as f:
            for line in f:
                if line.startswith('"SCRIPT '):
                    seqs.append(json.loads(json.loads(line)[len("SCRIPT "):]))
        key = lambda s: json.dumps(s, separators=(",", ":"))
        prefixes = set()
        for s in [] if whole else seqs:
            prefixes.add(key([s[0], s[1][:-1]]))
        keep = [k for k in sorted({key(s) for s in seqs}) if k not in prefixes]
        path = os.path.join(self.dir, "scripts-%d.txt" % self.n)
        with open(path, "w") as f:
            f.write("\n".join(keep) + "\n")
        return path

    def harness(self, commands):
        """Runs harness commands (each a list whose OUT is replaced) in parallel; returns one file with all records."""
        self.n += 1
        merged = os.path.join(self.dir, "trace-%d.ndjson" % self.n)
        def one(ix):
            c = commands[ix]
            out = merged + ".%d" % ix
            try:
                r = subprocess.run([self.bin, c[0], out] + [str(x) for x in c[1:]], capture_output=True, text=True,
                                   timeout=self.left(), cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise Broken("harness did not finish in time: %s" % c)
            return ix, r.returncode, r.stderr[-2000:]
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(one, range(len(commands))))
        with open(merged, "wb") as f:
            for ix, rc, err in res:
                p = merged + ".%d" % ix
                if os.path.exists(p):
                    with open(p, "rb") as g:
                        data = g.read()
                    if rc != 0:
                        data = data[:data.rfind(b"\n") + 1]
                    f.write(data)
                    os.remove(p)
        for ix, rc, err in res:
            if rc in (-6, -11, -4, -8):      # the code under test brought the whole process down
                raise self.violation("the code under test killed the process (signal %d)" % -rc,
                                     {"harness": commands[ix], "stderr": err})
            if rc != 0 and re.search(r"panic: panicked at /repo/src/", err):
                raise self.violation("the code under test panicked while its input was prepared", {"harness": commands[ix], "stderr": err})
            if rc != 0:
                raise Broken("harness failed (%s) on %s: %s" % (rc, commands[ix], err))
        return merged

    def spread(self, cmd, *args):
        """The same command with eight seeds."""
        return [[cmd, self.seed * 1000 + k] + list(args) for k in range(CPUS)]

    def spread_scripts(self, path, prof):
        return [["scripts", path, prof, k, CPUS, self.seed] for k in range(CPUS)]

    def share(self, cmd, *args, tail=()):
        """The work of one command divided into eight parts: the arguments are followed by part and parts."""
        return [[cmd] + list(args) + [k, CPUS] + list(tail) for k in range(CPUS)]

    def violation(self, what, data):
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%d.json" % (self.prop, os.getpid()))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **data}, f, indent=1)
        return Violation(what, path)

    def conform(self, module, trace, constants=None, what="", starts=("open", "query")):
        """Has TLC check every record of the trace against the specification, a part at a time if the trace is long."""
        if os.path.getsize(trace) <= PART:
            return self.conform_part(module, trace, constants, what, starts)
        parts, size, out = [], PART, None
        with open(trace, "rb") as f:
            for line in f:
                if size >= PART and (starts is None or json.loads(line)["op"] in starts):
                    if out:
                        out.close()
                    parts.append(trace + "-part%d" % len(parts))
                    out, size = open(parts[-1], "wb"), 0
                out.write(line)
                size += len(line)
        out.close()
        os.remove(trace)
        for k, part in enumerate(parts):
            self.conform_part(module, part, constants, "%s (part %d of %d)" % (what, k + 1, len(parts)), starts)

    def conform_part(self, module, trace, constants, what, starts):
        kinds = self.cov["records_by_kind"]
        lines = traces = 0
        with open(trace) as f:
            for k, line in enumerate(f):
                lines += 1
                op = json.loads(line)["op"]
                kinds[op] = kinds.get(op, 0) + 1
                if starts is None or op in starts:
                    traces += 1
                if k in (1, 7) and len(self.cov["samples"]) < 6:
                    self.cov["samples"].append(line.strip()[:900])
        if lines == 0:
            raise Broken("no records to check")
        c = {"Prop": '"%s"' % self.prop}
        c.update(constants or {})
        verdict, info = self.tlc(module, c, env={"TRACE": trace}, invariants=["Conforms"])
        if verdict != "ok":
            at = [int(x) for x in re.findall(r"/\\ i = (\d+)", info["text"])]
            bad = re.findall(r'/\\ bad = "((?:[^"\\]|\\.)*)"', info["text"])
            if not at or not bad:
                raise Broken("cannot read TLC's report:\n" + info["text"][-3000:])
            with open(trace) as f:
                recs = f.readlines()
            i = at[-1]
            first = i
            if starts is not None:
                while first > 1 and json.loads(recs[first - 1])["op"] not in starts:
                    first -= 1
            raise self.violation(bad[-1], {"record": i, "trace": [json.loads(x) for x in recs[first - 1:i]]})
        self.cov["states"] += info["distinct"]
        self.cov["transitions"] += info["generated"]
        self.cov["traces_validated_against_impl"] += traces
        self.cov["conformance_runs"].append({"module": module, "what": what, "records": lines, "traces": traces,
                                             "states": info["distinct"], "seconds": info["seconds"]})
        os.remove(trace)

    def evidence(self, violations):
        p = os.path.join(HERE, "evidence")
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": self.cov, "assumptions": self.assumptions, "violations": violations,
                       "wall_s": round(time.time() - T0, 1)}, f, indent=1)


def main():
    if len(sys.argv) != 2:
        print("usage: check.py <property>", file=sys.stderr)
        return 2
    import plans
    prop = sys.argv[1]
    if prop not in plans.PLANS:
        print("unknown property " + prop, file=sys.stderr)
        return 2
    c = Check(prop)
    rc = 0
    try:
        c.build()
        plans.PLANS[prop](c)
        c.evidence(0)
        print("%s: held on everything explored (%d states, %d traces, %.0f s)" % (
            prop, c.cov["states"], c.cov["traces_validated_against_impl"], time.time() - T0))
    except Violation as v:
        c.evidence(1)
        print("%s: %s" % (prop, v))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except Broken as b:
        c.evidence(0)
        print("ERROR: %s" % b, file=sys.stderr)
        rc = 2
    shutil.rmtree(c.dir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
