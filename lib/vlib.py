"""Shared runner code: TLC, drivers, violations, evidence."""
import os, sys, re, glob, json, time, hashlib, subprocess, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
BUILD = os.path.join(VERIF, "build")
NCPU = 8


class CheckError(Exception):
    """The check itself failed (never reported as a violation)."""


def sh(cmd, timeout=600, cwd=None, env=None, check=True, stdin=None):
    e = dict(os.environ)
    if env: e.update({k: str(v) for k, v in env.items()})
    p = subprocess.run([str(x) for x in cmd], cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (p.returncode, cmd, p.stdout[-3000:], p.stderr[-3000:]))
    return p


def pmap(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.generated = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m: self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.deadlock = "Deadlock reached" in out
        self.violated = re.findall(r"(?:Invariant|property|Temporal properties) ?(\w*) (?:is|was|were) violated", out)
        self.ok = rc == 0 and "Error:" not in out

    def gen(self, tag="GEN"):
        res = []
        pre = '<<"%s", "' % tag
        for l in self.out.splitlines():
            if l.startswith(pre) and l.endswith('">>'):
                s = l[len(pre):-3].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        return res


def tlc(module, cfg, timeout=600, workers=None, simulate=None, depth=None, seed=None, env=None, heap="3g", extra=()):
    """cfg: file name in spec/ or text of a configuration."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        if "\n" in cfg or not cfg.endswith(".cfg"):
            path = os.path.join(tmp, module + ".cfg")
            open(path, "w").write(cfg)
        else:
            path = os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp,
               "-cp", "/opt/veriftools/tla/tla2tools.jar:" + _cm(), "tlc2.TLC", "-config", path, "-noGenerateSpecTE", "-metadir", tmp + "/md",
               "-workers", str(workers or (1 if simulate else NCPU))]
        if simulate: cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
        if seed is not None: cmd += ["-seed", str(seed)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = sh(cmd, timeout=timeout, cwd=tmp, env=env, check=False)
        return Tlc(p.stdout + p.stderr, p.returncode)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out: %s %s" % (module, cfg))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_CM = None
def _cm():
    global _CM
    if _CM is None:
        d = "/opt/veriftools/tla"
        _CM = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar")
    return _CM


# ------------------------------------------------------------------ building drivers from /repo
def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
            continue
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(root, f)
                h.update(os.path.relpath(q, p).encode())
                with open(q, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:20]


def gen_headers():
    """The headers that the project's build generates from its sources, regenerated from the working tree."""
    src = os.path.join(REPO, "include/cppad/cg")
    tp = os.path.join(src, "model/threadpool")
    files = [os.path.join(tp, f) for f in ("pthread_pool.c", "pthread_pool.h", "openmp.c", "openmp.h")]
    cin = os.path.join(src, "configure.hpp.in")
    h = tree_hash(files + [cin])
    out = os.path.join(BUILD, "gen-" + h)
    if os.path.isdir(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    d = os.path.join(tmp, "cppad/cg/model/threadpool"); os.makedirs(d)
    ver = "2.5.0"
    m = re.search(r"set\(cppadcg_version\s+\"?([\w.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.I)
    if m: ver = m.group(1)
    open(os.path.join(tmp, "cppad/cg/configure.hpp"), "w").write(open(cin).read().replace("@cppadcg_version@", ver))
    for f in files:
        body = open(f).read()
        base = os.path.basename(f).replace(".", "_")
        delim = "*=*"
        while ")" + delim + '"' in body: delim += "="
        var = "CPPADCG_%s_FILE" % base.upper()
        open(os.path.join(d, base + ".hpp"), "w").write(
            'const char %s[] = R"%s(%s)%s";\nconst size_t %s_SIZE = %d;\n' % (var, delim, body, delim, var, len(body.encode())))
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out


def build(name, sources, flags=("-O0",), cxx="clang++", std="c++14", libs=(), timeout=800):
    """Compile drivers/<sources> against /repo's headers; returns the program's path."""
    inc = gen_headers()
    srcs = [os.path.join(DRV, s) for s in sources]
    h = tree_hash([os.path.join(REPO, "include"), os.path.join(DRV, "common")] + srcs, repr((flags, cxx, std, libs)))
    exe = os.path.join(BUILD, "%s-%s" % (name, h))
    if os.path.exists(exe): return exe
    objs, cmds = [], []
    for s in srcs:
        o = exe + "." + os.path.basename(s) + ".%d.o" % os.getpid()
        objs.append(o)
        cmds.append([cxx, "-std=" + std, *flags, "-w", "-I" + inc, "-I" + REPO + "/include", "-I" + os.path.join(DRV, "common"), "-c", s, "-o", o])
    pmap(lambda c: sh(c, timeout=timeout), cmds)
    sh([cxx, *flags, *objs, "-o", exe + ".tmp%d" % os.getpid(), "-rdynamic", *libs, "-lcppad_lib", "-ldl", "-lpthread"], timeout=timeout)
    os.rename(exe + ".tmp%d" % os.getpid(), exe)
    for o in objs: os.remove(o)
    return exe


# ------------------------------------------------------------------ the check object
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.cov, self.viol, self.assumptions = [], {}, [], []
        self.level = "model_checking"
        self.known = load_known(pid)
        self.known_hit = {}
        self.scratch = tempfile.mkdtemp(prefix="v" + pid)
        for f in glob.glob(os.path.join(BUILD, "replay", pid + "-*.json")): os.unlink(f)

    def pick(self, q, t): return q if self.quick else t
    def elapsed(self): return time.time() - self.t0

    def count(self, r):
        self.states += r.distinct; self.transitions += r.generated
        return r

    def model_check(self, module, cfg, **kw):
        """The specification's own properties: a failure is an error of the specification."""
        r = tlc(module, cfg, **kw)
        if not r.ok: raise CheckError("TLC rejects %s/%s:\n%s" % (module, cfg, r.out[:4000]))
        self.count(r)
        return r

    def generate(self, module, cfg, tag="GEN", **kw):
        r = tlc(module, cfg, **kw)
        if not r.ok: raise CheckError("TLC fails on generator %s/%s:\n%s" % (module, cfg, r.out[:4000]))
        self.count(r)
        return r.gen(tag)

    def generate_sim(self, module, cfg, num, depth, tag="GEN", parts=NCPU, **kw):
        """num simulated behaviours, split over several deterministic TLC runs."""
        n = max(1, num // parts)
        rs = pmap(lambda i: tlc(module, cfg, simulate=n, depth=depth, seed=self.seed * 1000 + i, workers=1, **kw), range(parts))
        out = []
        for r in rs:
            if not r.ok: raise CheckError("TLC fails on generator %s/%s:\n%s" % (module, cfg, r.out[:4000]))
            self.count(r); out += r.gen(tag)
        return out

    def violation(self, what, replay, key=None):
        """key identifies the specific failing input for the list of known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit.setdefault(k["key"], k["what"])
                return
        d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol)))
        json.dump({"property": self.pid, "what": what, "key": key, "replay": replay}, open(path, "w"), indent=1, default=str)
        self.viol.append((what, path))
        if len(self.viol) <= 12: print("  %s: %s" % (self.pid, what)[:600])

    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(x)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "samples": self.samples[:4], **self.cov},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][1]))
            sys.exit(1)
        print("%s ok: %d spec states, %d behaviours bound to the code, %.1f s" % (self.pid, self.states, self.validated, time.time() - self.t0))
        sys.exit(0)


def load_known(pid):
    """known_findings.txt: 'KNOWN property=<id> key=<key> <what>' lines are active; 'fixed:' lines are history."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append({"key": m.group(2), "what": m.group(3)})
    return out


def fresh_dir(base, name):
    d = os.path.join(base, name)
    os.makedirs(d, exist_ok=True)
    return d
