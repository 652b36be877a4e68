"""Driver of the checks: builds harnesses from /repo's current tree, runs scenarios through the real code,
model-checks the specifications and validates recorded traces against them with TLC."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HART_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

class CheckError(Exception):
    pass

def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]

CXX = ["clang++", "-std=c++11", "-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]

def build(name, flags=()):
    """Compiles harness/<name>.cpp against REPO's working tree. Results are cached by content."""
    srcs = [os.path.join(REPO, "include"), os.path.join(REPO, "dependencies"), os.path.join(ROOT, "harness")]
    key = tree_hash(srcs) + hashlib.sha256(repr((name, CXX, flags)).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{name}-{key}")
    if os.path.exists(out):
        return out
    tmp = out + f".tmp{os.getpid()}"
    r = sh(CXX + list(flags) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "dependencies/CLI11"),
            "-I" + os.path.join(REPO, "dependencies/dr_libs"), "-I" + os.path.join(ROOT, "harness"),
            os.path.join(ROOT, "harness", name + ".cpp"), "-o", tmp])
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise CheckError(f"harness {name} does not compile")
    os.rename(tmp, out)
    # keep the cache small
    old = sorted((f for f in os.listdir(d) if f.startswith(name + "-") and ".tmp" not in f), key=lambda f: os.path.getmtime(os.path.join(d, f)))
    for f in old[:-6]:
        os.unlink(os.path.join(d, f))
    return out

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=BUILD)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.lines = 0
        self.models, self.violations, self.samples, self.foreign = [], [], [], {}
        self.nscen = 0
        self.told = False
        self.known = load_known(prop)
        self.known_hit = set()
        self.kinds = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, heap="3g", extra=()):
        cfgp = cfg if cfg and os.path.isabs(cfg) else os.path.join(SPEC, cfg or module + ".cfg")
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        args = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
                "-cp", TLA_CP, "tlc2.TLC", "-config", cfgp, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-nowarning"]
        args += list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = sh(args, cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC on {module} timed out after {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, consts, invs=("Sound",), bugs=(), props=(), timeout=600, heap="12g", workers=JOBS):
        """Exhaustively checks a model for the given constants; returns the scripts it printed with PrintT("@@ ...").
        Every variant in bugs (values of the constant Bug, with overriding constants) must be rejected by TLC."""
        def cfg(c):
            p = os.path.join(self.work, f"{module}-{len(self.models)}-{c['Bug'].strip(chr(34))}.cfg")
            with open(p, "w") as f:
                f.write("SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {i}\n" for i in invs) + "".join(f"PROPERTY {i}\n" for i in props)
                        + "".join(f"CONSTANT {k} = {v}\n" for k, v in c.items()))
            return p
        t = time.time()
        consts = dict(consts, Bug='"none"')
        rc, out = self.tlc(module, cfg(consts), workers=workers, timeout=timeout, heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            i = out.find("Error")
            sys.stderr.write(out[max(0, i):][:1500] + out[-2500:])
            raise CheckError(f"TLC did not accept {module}")
        emitted = [tuple(re.findall(r'"((?:[^"\\]|\\.)*)"', unq(x))) for x in re.findall(r'^"@@ (.*)"$', out, re.M)]
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        self.models.append(dict(module=module, constants=consts, invariants=list(invs) + list(props), distinct_states=int(m.group(2)), states_generated=int(m.group(1)), behaviours_emitted=len(emitted), wall_s=round(time.time() - t, 1)))
        def broken(b):
            name, over = (b, {}) if isinstance(b, str) else b
            return name, self.tlc(module, cfg(dict(consts, **over, Bug=f'"{name}"')), workers=1, timeout=timeout, heap="4g")
        if bugs:
            t = time.time()
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for name, (rc, out) in ex.map(broken, bugs):
                    if rc == 0 or not re.search(r"Invariant .* is violated|Action property .* is violated|Temporal properties were violated", out):
                        sys.stderr.write(out[-3000:])
                        raise CheckError(f"the deliberately broken model {module} ({name}) was accepted")
            self.models.append(dict(module=module, broken_variants_rejected=[b if isinstance(b, str) else b[0] for b in bugs], wall_s=round(time.time() - t, 1)))
        return sorted(set(emitted))

    def pick(self, scripts, n):
        """At most n of the emitted scripts, chosen by the seed."""
        scripts = [list(x) for x in scripts]
        return scripts if len(scripts) <= n else self.rng.sample(scripts, n)

    # ------------------------------------------------------------------ real code
    def execute(self, binary, scenarios, cli, tag, header, timeout):
        """Runs the scenarios (list of lists of script lines) through the harness; returns the trace path.
        A crash or hang is recorded as an event and the next scenario goes on in a fresh process."""
        d = tempfile.mkdtemp(prefix=f"run-{tag}-", dir=self.work)
        scratch = os.path.join(d, "scratch")
        os.makedirs(scratch)
        script, trace = os.path.join(d, "script.txt"), os.path.join(d, "trace.ndjson")
        with open(script, "w") as f:
            for i, (head, lines) in enumerate(scenarios):
                f.write(f"S id={head}\n" if isinstance(head, int) else f"S id={head[0]} {head[1]}\n")
                f.write("\n".join(lines) + "\n")
        with open(trace, "w") as f:
            for h in header:
                f.write(json.dumps(h) + "\n")
        env = dict(os.environ, HX_SCRATCH=scratch, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:symbolize=0:allocator_may_return_null=1")
        first, crashes, budget = 0, 0, timeout
        while True:
            t = time.time()
            try:
                r = sh([binary, script, trace, str(first)] + [c.replace("@SCRATCH@", scratch) for c in cli], env=env, timeout=max(5, budget), cwd=scratch)
                why = "crash"
                rc = r.returncode
                if rc in (64, 65):
                    sys.stderr.write(r.stdout[-2000:])
                    raise CheckError(f"harness refused its script ({rc})")
            except subprocess.TimeoutExpired:
                why, rc = "hang", 1
            budget -= time.time() - t
            lines = open(trace, errors="replace").read().split("\n")
            last = next((x for x in reversed(lines) if x.strip()), "")
            if rc == 0 and '"eof"' in last:
                break
            # keep complete lines only, then note what happened
            keep = []
            for x in lines:
                try:
                    json.loads(x)
                    keep.append(x)
                except ValueError:
                    pass
            begun = [json.loads(x)["sc"] for x in keep if x.startswith('{"e":"begin"')]
            if not begun:                # not even started: a crash of the first scenario
                begun = [scenarios[0][0] if isinstance(scenarios[0][0], int) else scenarios[0][0][0]]
                keep.append(json.dumps({"e": "begin", "sc": begun[0]}))
            keep.append(json.dumps({"e": why}))
            with open(trace, "w") as f:
                f.write("\n".join(keep) + "\n")
            ids = [h if isinstance(h, int) else h[0] for h, _ in scenarios]
            later = [i for i in ids if i > begun[-1]]
            crashes += 1
            if not later or crashes >= 4 or why == "hang" and budget < 5:
                break
            budget = max(budget, 20)
            first = later[0]
        shutil.rmtree(scratch, ignore_errors=True)
        return trace

    def validate(self, module, trace, timeout=600):
        rc, out = self.tlc(module, env={"TRACE": trace}, workers=1, timeout=timeout)
        m = re.search(r'^"@@RESULT (.*)"$', out, re.M)
        if rc != 0 or not m:
            if not self.told:
                self.told = True
                i = out.find("Error")
                sys.stderr.write(out[i if i >= 0 else -900:][:400] + out[-1500:] + "\n")
            raise CheckError(f"TLC could not evaluate {module} on a trace")
        res = json.loads(unq(m.group(1)))
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return res, int(g.group(1)), int(g.group(2))

    def shard(self, scenarios, shards):
        out = [[] for _ in range(max(1, min(shards, len(scenarios))))]
        for i, x in enumerate(scenarios):
            out[i % len(out)].append(x)
        return out

    def conform(self, harness, module, scenarios, cli=(), header=(), shards=JOBS, timeout=120, flags=(), kind="generated"):
        """scenarios: list of (options, lines). Runs them for real and validates the recorded traces."""
        if not scenarios:
            return
        binary = build(harness, flags)
        base = self.nscen
        numbered = [((base + i + 1, o) if o else (base + i + 1, ""), lines) for i, (o, lines) in enumerate(scenarios)]
        self.nscen += len(scenarios)
        self.kinds[kind] = self.kinds.get(kind, 0) + len(scenarios)
        byid = {h[0]: (h, lines) for h, lines in numbered}

        def one(arg):
            k, part = arg
            tr = self.execute(binary, part, cli, f"{k}", header, timeout)
            res, gen, dist = self.validate(module, tr, timeout=800)
            return tr, res, gen, dist
        groups = list(enumerate(self.shard(numbered, shards)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(one, groups))
        mine = []
        for tr, res, gen, dist in results:
            self.states += dist
            self.transitions += gen
            self.lines += res["lines"]
            for label, sc, line in res["log"]:
                props = label.split(":")[0].split(",")
                if self.prop in props or props == ["ANY"]:
                    mine.append((label, sc, tr, line))
                else:
                    self.foreign[label] = self.foreign.get(label, 0) + 1
        self.traces += len(scenarios)
        if not self.samples:
            h, lines = numbered[len(numbered) // 2]
            tr = open(results[0][0]).read().split("\n")
            self.samples.append(dict(script=lines[:12], recorded_events=[x[:300] for x in tr[1:6]]))
        if not mine:
            return
        # Re-run what was rejected, alone, before it is reported
        ids = []
        for label, sc, tr, line in mine:
            if sc not in ids:
                ids.append(sc)
        again = {}
        for sc in ids[:12]:
            tr = self.execute(binary, [byid[sc]], cli, f"again{sc}", header, timeout)
            res, _, _ = self.validate(module, tr)
            again[sc] = ({x[0]: x[2] for x in res["log"]}, tr)
        confirmed = [(label, sc, again[sc][1], again[sc][0][label]) for label, sc, tr, line in mine if sc in again and label in again[sc][0]]
        if not confirmed:
            # perhaps it needs its predecessors in the same process
            for k, part in groups:
                if any(h[0] in ids for h, _ in part):
                    tr = self.execute(binary, part, cli, f"all{k}", header, timeout)
                    res, _, _ = self.validate(module, tr)
                    labels = {(x[0], x[1]) for x in res["log"]}
                    confirmed += [(label, sc, tr, line) for label, sc, _, line in mine if (label, sc) in labels]
        if not confirmed:
            raise CheckError(f"rejections that did not repeat: {sorted({x[0] for x in mine})}")
        for label, sc, tr, line in confirmed:
            self.report(label, dict(harness=harness, module=module, cli=list(cli), header=list(header), flags=list(flags), scenario=byid[sc][1], options=byid[sc][0][1], label=label, trace=tr, line=line))

    def report(self, label, data):
        what = label.split(":", 1)[1]
        for k in self.known:
            if k["match"] in label and (not k.get("scenario") or k["scenario"] in json.dumps(data.get("scenario", ""))):
                self.known_hit.add(k["id"])
                return
        if any(v["what"] == what for v in self.violations):
            return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations) + 1}.json")
        if "trace" in data:
            t = open(data["trace"], errors="replace").read()
            ls = t.split("\n")
            data = dict(data, event=ls[data["line"] - 1][:4000] if data["line"] <= len(ls) else "", trace=t[-20000:].split("\n"))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, **data), f, indent=1)
        self.violations.append(dict(what=what, path=path))

    def violation(self, what, data):
        self.report(f"{self.prop}:{what}", data)

    # ------------------------------------------------------------------ result
    def finish(self, rule):
        for k in self.known:
            if k["id"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for v in self.violations:
            print(f"# {v['what']}")
            print(f"VIOLATION property={self.prop} replay={v['path']}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, trace_events=self.lines,
                                models=self.models, scenarios_by_kind=self.kinds, rule=rule, samples=self.samples,
                                rejections_owned_by_other_properties=self.foreign),
                  assumptions=["clang, libstdc++, TLC and the harness' own observation code are trusted", "bounds and scenario space as described in DESIGN.md"])
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.prop} {self.tier}: {self.traces} scenarios, {self.lines} events, {self.states} states, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0

def unq(x):
    return json.loads('"' + x + '"')

def load_known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop:
                out.append(k)
    return out
