"""Shared machinery of the checks: build drivers from /repo's current tree, run them, run TLC, and
report.  Exit status of a check: 0 held, 1 violation (with a VIOLATION line), 2 the check could not
be carried out."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, input=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, env=e, cwd=cwd)


# ---------------------------------------------------------------- building
def build_java():
    out = os.path.join(BUILD, "classes")
    src = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "java.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(out, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == h:
            return out
        os.makedirs(out, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", out] + src, timeout=300)
        if r.returncode:
            raise ToolError("javac: " + r.stderr.decode()[-2000:])
        open(stamp, "w").write(h)
    return out


def _repo_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "packages")):
        dirs[:] = sorted(d for d in dirs if d not in ("node_modules", "target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(crate, binname, release=True):
    """cargo build of one driver, always against the sources as they are now"""
    d = os.path.join(VERIF, "harness", crate)
    tgt = os.path.join(BUILD, "target", crate)
    os.makedirs(tgt, exist_ok=True)
    t0 = time.time()
    env = {"CARGO_TARGET_DIR": tgt, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
           "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"}
    # spartan_verif is the guard of the hooks in /repo
    env["RUSTFLAGS"] = "--cap-lints allow" + (" --cfg spartan_verif" if crate == "full" else "")
    with open(os.path.join(BUILD, crate + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo goes by modification time; start the repository's crates afresh when any content differs
        dg = _repo_digest()
        stamp = os.path.join(tgt, "sources.sha256")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != dg:
            for sub in ("release", "debug"):
                for kind in (".fingerprint",):
                    fp = os.path.join(tgt, sub, kind)
                    if os.path.isdir(fp):
                        for n in os.listdir(fp):
                            if re.match(r"(vt-|spartan|secq256k1|poseidon|circuit_reader|libspartan)", n):
                                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        open(stamp, "w").write(dg)
        lockf = os.path.join(d, "Cargo.lock")
        keep = open(lockf, "rb").read() if os.path.exists(lockf) else None
        cmd = ["cargo", "build", "--offline", "--bin", binname] + (["--release"] if release else [])
        r = sh(cmd, timeout=850, env=env, cwd=d)
        if keep is not None and open(lockf, "rb").read() != keep:
            open(lockf, "wb").write(keep)
        if r.returncode:
            raise ToolError("build of %s failed:\n%s" % (binname, r.stderr.decode(errors="replace")[-4000:]))
    return os.path.join(tgt, "release" if release else "debug", binname), time.time() - t0


def drive(binary, reqs, timeout=600, env=None):
    data = "\n".join(json.dumps(r, separators=(",", ":")) for r in reqs) + "\n"
    try:
        r = sh([binary], input=data.encode(), timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("driver %s: no answer within %d s" % (binary, timeout))
    outs = [json.loads(x) for x in r.stdout.decode().splitlines() if x.strip()]
    if r.returncode == 2:
        raise ToolError("driver: " + r.stderr.decode(errors="replace")[-2000:])
    if r.returncode or len(outs) != len(reqs):
        # the code under test took the process down: the request it died on is an observation
        dead = dict(reqs[len(outs)]) if len(outs) < len(reqs) else {}
        dead["panic"] = "process ended (%d) %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:])
        outs.append(dead)
    return outs


def drive_parallel(binary, programs, timeout=600, jobs=NCPU, env=None, reset=None):
    """programs: list of lists of requests (each starts from a fresh state); returns them executed"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = max(1, min(jobs, len(programs)))
    parts = [programs[i::jobs] for i in range(jobs)]

    def run(part):
        res, first = [], 0
        while first < len(part):                # once more after a program that took the process down
            reqs = []
            for p in part[first:]:
                reqs.append(dict({"op": "reset"}, **(reset or {})))
                reqs += p
            outs = drive(binary, reqs, timeout, env)
            k = 0
            for p in part[first:]:
                k += 1
                got = outs[k:k + len(p)]
                k += len(p)
                res.append(got)
                first += 1
                if len(got) < len(p) or k >= len(outs):
                    break
        return res
    with ThreadPoolExecutor(jobs) as ex:
        done = list(ex.map(run, parts))
    out = [None] * len(programs)
    for i, part in enumerate(done):
        for k, r in enumerate(part):
            out[i + k * jobs] = r
    return [x for x in out if x]


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        ms = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(ms[-1][0].replace(",", "")) if ms else 0
        self.distinct = int(ms[-1][1].replace(",", "")) if ms else 0

    def last_state(self):
        st = re.split(r"\nState \d+:", self.out)
        return st[-1] if len(st) > 1 else ""

    def var(self, name):
        m = re.findall(r"^(?:/\\ )?%s = (.*)$" % re.escape(name), self.last_state(), re.M)
        return m[-1].strip() if m else None


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla_val(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(tla_val(x) for x in sorted(v))
    if isinstance(v, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla_val(x)) for k, x in v.items())
    raise ValueError(v)


def tlc(module, constants=None, spec="Spec", invariants=(), properties=(), env=None, deadlock=True,
        workers=None, timeout=800, heap="6g", post=None, constraint=None, subst=None, extra=(), coverage=False, view=None):
    classes = build_java()
    tmp = tempfile.mkdtemp(prefix="vt-tlc-")
    try:
        # constants that are not plain model values go through a wrapper module
        name = "Run_" + module
        defs, cfg = [], []
        for k, v in (constants or {}).items():
            if isinstance(v, (bool, str)) or (isinstance(v, int) and v >= 0):
                cfg.append("CONSTANT %s = %s" % (k, tla_val(v)))
            else:
                defs.append("c_%s == %s" % (k, tla_val(v)))
                cfg.append("CONSTANT %s <- c_%s" % (k, k))
        for k, v in (subst or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        if spec:
            cfg.append("SPECIFICATION " + spec)
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for i in properties:
            cfg.append("PROPERTY " + i)
        if post:
            cfg.append("POSTCONDITION " + post)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if view:
            cfg.append("VIEW " + view)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(tmp, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, module, "\n".join(defs)))
        with open(os.path.join(tmp, name + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        for fn in os.listdir(SPEC):
            if fn.endswith(".tla"):
                os.symlink(os.path.join(SPEC, fn), os.path.join(tmp, fn))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigOverrides",
               "-cp", JARS + ":" + classes, "tlc2.TLC", "-workers", str(workers or NCPU), "-noGenerateSpecTE",
               "-metadir", os.path.join(tmp, "meta"), "-config", name + ".cfg"] + list(extra)
        if coverage:
            cmd += ["-coverage", "60"]
        cmd.append(name + ".tla")
        t0 = time.time()
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=tmp)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish within %d s" % (module, timeout))
        return TlcResult(r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"), time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.findings = []
        self.known = load_known(pid)
        self.rng = random.Random("%s/%d" % (pid, SEED))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, key, k):
        self.cov[key] = self.cov.get(key, 0) + k

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s if isinstance(s, (dict, list)) else str(s)[:400])

    def model(self, module, what, expect="ok", **kw):
        """exhaustive exploration of a specification; any error here is an error of the specification"""
        r = tlc(module, **kw)
        if expect == "ok" and r.code != 0:
            raise ToolError("model %s (%s): TLC status %d\n%s" % (module, what, r.code, r.out[-1800:]))
        if expect != "ok" and r.code not in (11, 12, 13):
            raise ToolError("model %s (%s): TLC was to refute it, status %d\n%s" % (module, what, r.code, r.out[-1800:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append({"module": module, "what": what, "distinct_states": r.distinct,
                                                  "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        log("model %-18s %-46s %8d states %6.1fs" % (module, what, r.distinct, r.wall))
        return r

    def violation(self, key, detail, replay):
        """key identifies the failing case (for the known-findings file)"""
        for k in self.known:
            if k["match"] == key:
                if key not in [f for f, _ in self.findings]:
                    self.findings.append((key, k["what"]))
                return False
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "detail": detail, "replay": replay}, f, indent=1, default=str)
        self.violations.append({"key": key, "detail": str(detail)[:1500], "replay": path})
        return True

    def trace(self, module, programs, what, constants=None, spec="TSpec", invariants=("TypeOK",), per=1, key=None,
              counter="traces_validated_against_impl", rows="ev", header=None, timeout=800, subst=None):
        """programs: executed programs (lists of events).  All must be behaviours of the specification."""
        programs = [p for p in programs if p]
        if not programs:
            raise ToolError("no traces to validate: " + what)
        tmp = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
        try:
            for k, p in enumerate(programs):
                rec = {rows: p}
                if header:
                    rec.update(header[k] if isinstance(header, list) else header)
                tmp.write(json.dumps(rec, separators=(",", ":")) + "\n")
            tmp.close()
            r = tlc(module, constants=constants, spec=spec, invariants=invariants, env={"TRACE": tmp.name}, timeout=timeout, subst=subst)
        finally:
            os.unlink(tmp.name)
        want = sum(len(p) + 1 for p in programs)
        nev = sum(len(p) for p in programs)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        log("trace %-18s %-46s %8d events %5d traces %6.1fs" % (module, what, nev, len(programs), r.wall))
        if r.code == 0:
            if r.distinct != want:
                raise ToolError("%s: %d states for %d expected\n%s" % (module, r.distinct, want, r.out[-2000:]))
            self.cov[counter] = self.cov.get(counter, 0) + len(programs)
            self.add("events_validated", nev)
            self.cov.setdefault("traces", []).append({"module": module, "what": what, "traces": len(programs), "events": nev, "wall_s": round(r.wall, 1)})
            return True
        if r.code in (11, 12, 75, 76, 77) or (r.code not in (10,) and re.search(r"evaluat", r.out) and r.code < 150):
            pi, l = r.var("prog"), r.var("l")
            pi = int(pi) if pi and pi.isdigit() else None
            l = int(l) if l and l.isdigit() else None
            if pi is None:
                raise ToolError("%s: cannot locate the rejected event\n%s" % (module, r.out[-1800:]))
            prog = programs[pi - 1]
            evd = prog[l - 1] if l and l <= len(prog) else None
            self.violation(key(prog, l - 1) if key else (evd or {}).get("op", what),
                           {"what": what, "module": module, "program": pi, "event": l, "rejected": evd, "tlc": r.last_state()[-800:] or r.out[-800:]},
                           {"program": prog[:l] if l else prog})
            return False
        raise ToolError("%s (%s): TLC status %d\n%s" % (module, what, r.code, r.out[-1800:]))

    def nonvacuous(self, module, programs, corrupt, what, **kw):
        """the binding rejects a corrupted recording"""
        progs = json.loads(json.dumps(programs))
        corrupt(progs)
        c = Check(self.pid, self.tier)
        c.known = []
        ok = c.trace(module, progs, what + " (corrupted: to be rejected)", **kw)
        if ok:
            raise ToolError("the trace specification %s accepts a corrupted recording" % module)
        for v in c.violations:
            os.path.exists(v["replay"]) and os.unlink(v["replay"])
        self.add("corrupted_recordings_rejected", 1)

    def finish(self):
        self.cov["known_findings_met"] = [k for k, _ in self.findings]
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in self.findings:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for v in self.violations:
            log("detail: " + v["detail"])
            log("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        log("%s %s: %s in %.1fs" % (self.pid, self.tier, "VIOLATED" if self.violations else "held", time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


# ---------------------------------------------------------------- operands
def limb_patterns(rng, n, bits=64, count=4, special=()):
    base = [0, 1, 2, (1 << (bits - 1)), (1 << bits) - 1, (1 << bits) - 2, 1 << (bits // 2), (1 << (bits // 2)) - 1, 977, (1 << 32) + 977] + list(special)
    out = []
    for _ in range(n):
        v = 0
        for k in range(count):
            l = rng.choice(base) if rng.random() < 0.85 else rng.getrandbits(bits)
            v |= (l & ((1 << bits) - 1)) << (bits * k)
        out.append(v)
    return out


def field_pool(rng, p, n=200):
    """field elements on boundaries of the canonical and of the Montgomery representation"""
    R = 1 << 256
    Ri = pow(R, -1, p)
    sp = [0, 1, 2, 3, 4, 5, 7, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2, R % p, R * R % p, pow(R, 3, p), Ri, p - R % p, (1 << 255) % p]
    for k in (1, 8, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 160, 191, 192, 193, 223, 224, 254, 255):
        sp += [(1 << k) % p, ((1 << k) - 1) % p, (p - (1 << k)) % p]
    lm = [(p >> (64 * k)) & ((1 << 64) - 1) for k in range(4)]
    special = lm + [(x - 1) & ((1 << 64) - 1) for x in lm] + [(x + 1) & ((1 << 64) - 1) for x in lm]
    pats = [v % p for v in limb_patterns(rng, n, special=special)]
    sp = sp + [x * Ri % p for x in sp]
    return sp + pats + [v * Ri % p for v in pats] + [rng.randrange(p) for _ in range(n // 4)]


def related(rng, p, pool, n):
    """elements with relations among them: equal, opposite, inverse, products of one, sums of zero"""
    out = []
    for _ in range(n):
        k = rng.random()
        prod, tot = 1, 0
        for x in out:
            prod, tot = prod * x % p, (tot + x) % p
        if out and k < .3:
            v = pow(prod, -1, p) if prod and k < .2 else (p - tot) % p
        elif out and k < .5:
            x = rng.choice(out)
            v = rng.choice((x, (p - x) % p, pow(x, -1, p) if x else 0, x * x % p))
        elif k < .65:
            v = rng.choice((0, 1, p - 1, 2, (p + 1) // 2))
        else:
            v = rng.choice(pool) % p
        out.append(v)
    return out


def hx(n):
    return format(n, "x")
