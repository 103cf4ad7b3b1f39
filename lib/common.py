"""Building the code under test, running TLC and running documents through the real parser."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JOBS = 8


sys.setrecursionlimit(20000)


class ToolError(Exception):
    """The check itself failed: no verdict."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def repo_hash():
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock"]
    for d, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.relpath(os.path.join(d, n), REPO) for n in names]
    for f in sorted(files):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    for f in ("Cargo.toml", "src/main.rs", "src/tree.rs"):
        h.update(hashlib.sha256(open(os.path.join(VERIF, "harness", f), "rb").read()).digest())
    return h.hexdigest()


class Built:
    pass


def _cargo(args, cwd, rustflags=None, more=None):
    e = env()
    e.update(more or {})
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def build(need_harness=True):
    """Builds /repo's command line tools and the harness from the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cli, har = os.path.join(BUILD, "cli"), os.path.join(BUILD, "har")
        stamp = os.path.join(BUILD, "sources.sha256")
        now = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            # cargo goes by modification time; contents are what counts
            if os.path.exists(stamp):
                os.remove(stamp)
            for d in (cli, har, os.path.join(BUILD, "opt")):
                for sub in ("debug", "release"):
                    fp = os.path.join(d, sub, ".fingerprint")
                    if os.path.isdir(fp):
                        for n in os.listdir(fp):
                            if n.startswith("elm-"):
                                shutil.rmtree(os.path.join(fp, n))
        b = Built()
        r = _cargo(["build", "--offline", "--locked", "--target-dir", cli, "--bins"], REPO)
        if r.returncode != 0:
            raise ToolError("the command line tools do not build:\n" + r.stdout[-3000:])
        b.dump = os.path.join(cli, "debug", "elm-parser-dump")
        b.check = os.path.join(cli, "debug", "elm-parser-check")
        b.hooked = False
        if need_harness:
            h = os.path.join(VERIF, "harness")
            base = ["build", "--offline", "--locked", "--release", "--target-dir", har]
            r = _cargo(base, h, "--cfg elm_parser_verif")
            b.hooked = r.returncode == 0
            if not b.hooked:
                print("note: the guarded entry point does not build; "
                      "every document goes through elm-parser-dump instead")
                r = _cargo(base + ["--no-default-features"], h)
                if r.returncode != 0:
                    raise ToolError("the harness does not build:\n" + r.stdout[-3000:])
                # the tool, as quick as the entry point is
                opt = os.path.join(BUILD, "opt")
                r = _cargo(["build", "--offline", "--locked", "--release", "--target-dir", opt, "--bin", "elm-parser-dump"], REPO,
                           more={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "2", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"})
                if r.returncode != 0:
                    raise ToolError("the command line tools do not build:\n" + r.stdout[-3000:])
                b.fast = os.path.join(opt, "release", "elm-parser-dump")
            b.harness = os.path.join(har, "release", "elm-verif-harness")
        # from here on other runs may rebuild: work with private copies
        b.dir = tempfile.mkdtemp(prefix="elmverif-")
        os.chmod(b.dir, 0o755)
        for n in ("dump", "check", "harness", "fast"):
            if hasattr(b, n):
                p = os.path.join(b.dir, ("fast-" if n == "fast" else "") + os.path.basename(getattr(b, n)))
                shutil.copy2(getattr(b, n), p)
                setattr(b, n, p)
        open(stamp, "w").write(now)
        return b


# ------------------------------------------------------------------------------ TLC
class Tlc:
    """One run of TLC: what it printed, how many states it saw, how it ended."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        s = re.findall(r"Progress: (\d+) states checked, (\d+) traces generated", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.traces = 0
        i = re.search(r"Finished computing initial states: (\d+) ", out)
        self.initial = int(i.group(1)) if i else 0
        if s:
            self.generated = self.distinct = int(s[-1][0])
            self.traces = self.initial = int(s[-1][1])
        self.transitions = self.generated - self.initial
        self.ok = rc == 0 and ("No error has been found" in out or "Finished in" in out and "Error:" not in out)

    def brief(self):
        lines = [l for l in self.out.splitlines()
                 if not re.match(r"(Semantic|Parsing|Linting)", l)]
        return "\n".join(lines)[-4000:]


def tlc(module, cfg, envs=None, args=(), workers=1, heap="2g", stack="256m", timeout=800):
    d = tempfile.mkdtemp(prefix="elmtlc-")
    try:
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = env()
        e.update(envs or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack,
               "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-config", os.path.join(d, "run.cfg")] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish in %d s: %s" % (timeout, module))
        return Tlc(r.stdout, r.returncode)
    finally:
        shutil.rmtree(d)


def cfg(spec, constants=None, invariants=(), properties=()):
    lines = ["SPECIFICATION " + spec]
    if constants:
        lines.append("CONSTANTS")
        lines += ["  %s = %s" % kv for kv in constants.items()]
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    return "\n".join(lines + ["CHECK_DEADLOCK FALSE", ""])


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


# ------------------------------------------------------------------- the real parser
def run_docs(b, texts, timeout=10.0, cli=False, stack_kb=1048576, most_crashes=3):
    """Runs every text through the real parser.  Returns the recorded runs (raw JSON lines, in
    the order of `texts`); a run that ended the process has outcome "abort" or "timeout".  After
    some of those the rest of a share of the texts is left out (None)."""
    tool = b.dump if cli else None if b.hooked else b.fast
    if not cli and not b.hooked:
        timeout *= 6
    n = len(texts)
    shards = [list(range(k, n, JOBS)) for k in range(JOBS)]
    lines = [None] * n
    d = tempfile.mkdtemp(prefix="elmdocs-")

    def crashed(i, outcome):
        t = texts[i]
        return json.dumps({"id": str(i), "outcome": outcome, "ms": 0, "rest": -1, "src": list(t),
                           "cps": [ord(c) for c in t], "tree": [], "parts": []})

    def shard(k):
        todo = shards[k]
        rounds = 0
        while todo:
            rounds += 1
            src, dst = os.path.join(d, "in%d" % k), os.path.join(d, "out%d" % k)
            with open(src, "wb") as f:
                for i in todo:
                    t = texts[i].encode("utf-8")
                    f.write(b"%d %d\n" % (i, len(t)) + t + b"\n")
            # deep documents: the tool's own stack is not what is under test here
            args = ["sh", "-c", "ulimit -s %d 2>/dev/null || ulimit -s $(ulimit -H -s); exec \"$@\"" % stack_kb, "-",
                    b.harness] + (["cli", tool] if tool else []) + [src, dst, str(timeout)]
            p = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            got = 0
            with open(dst, encoding="utf-8") as f:
                for l in f:
                    if not l.endswith("\n"):
                        break
                    m = re.match(r'\{"id":"(\d+)"', l)
                    if not m or int(m.group(1)) != todo[got]:
                        break
                    lines[todo[got]] = l.rstrip("\n")
                    got += 1
            if p.returncode == 0:
                if got != len(todo):
                    raise ToolError("the harness lost documents")
                return
            if rounds > most_crashes:
                return
            # the documents already on record stay; the next ones are run alone to find which one it is
            rest = todo[got:]
            while rest:
                i = rest[0]
                with open(src, "wb") as f:
                    t = texts[i].encode("utf-8")
                    f.write(b"%d %d\n" % (i, len(t)) + t + b"\n")
                q = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if q.returncode == 0:
                    lines[i] = open(dst, encoding="utf-8").read().rstrip("\n")
                    rest = rest[1:]
                    continue
                lines[i] = crashed(i, "timeout" if q.returncode == 3 else "abort")
                rest = rest[1:]
                break
            todo = rest

    try:
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(shard, range(JOBS)))
    finally:
        shutil.rmtree(d)
    return lines


def tree_of(run):
    """The statements of a recorded run, deep subtrees put back in their places."""
    parts = run["parts"]
    if not parts:
        return run["tree"]

    def full(n):
        if n["k"] == "@":
            return full(parts[int(n["s"]) - 1])
        return {"k": n["k"], "s": n["s"], "c": [full(c) for c in n["c"]]}
    return [full(n) for n in run["tree"]]


# ------------------------------------------------------------------ trace validation
DIV = re.compile(r'<<"DIVERGED", "([^"]*)", (\d+), (\d+), "([^"]*)">>')


TRACE = {"ElmTrace": ("TraceSpec", ["Covered", "ReservedApart", "PointsAtRest", "CountDone"], []),
         "DumpTrace": ("DTSpec", ["Covered", "Once", "OnlyWanted", "AllReported", "CountDone"], []),
         "CheckTrace": ("KTSpec", ["Covered", "PointsAtRest", "CountDone"], ["NamesGrow"]),
         "CmdTrace": ("CTSpec", ["OrderFree", "NothingOnFailure", "NoSilentSuccess", "CountDone"], []),
         "SessionTrace": ("SSpec", ["OneAnswer", "CountDone"], [])}


def validate(lines, label="trace", module="ElmTrace"):
    """Checks recorded runs against a trace specification with several TLC processes.  Returns
    (divergences, states, transitions); a divergence is (id, statement number, position, what)."""
    if not lines:
        return [], 0, 0
    d = tempfile.mkdtemp(prefix="elmtrace-")
    spec, invs, props = TRACE[module]
    conf = cfg(spec, invariants=invs, properties=props) + "POSTCONDITION AllDecided\n" + ("VIEW View\n" if module in ("ElmTrace", "DumpTrace", "CheckTrace") else "")
    # spread the big ones
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    parts = [order[k::JOBS] for k in range(JOBS)]
    parts = [p for p in parts if p]

    def one(k):
        path = os.path.join(d, "t%d.ndjson" % k)
        with open(path, "w", encoding="utf-8") as f:
            for i in parts[k]:
                f.write(lines[i] + "\n")
        r = tlc(module, conf, {"ELM_TRACE": path}, heap="3g", stack="1g")
        if not r.ok:
            raise ToolError("trace validation failed to run (%s):\n%s" % (label, r.brief()))
        want = len(parts[k])
        m = re.search(r'<<"ENDED", (\d+)>>', r.out)
        done = (int(m.group(1)) if m else 0) + len(DIV.findall(r.out))
        if done != want:
            raise ToolError("trace validation left %d of %d runs undecided (%s)\n%s"
                            % (want - done, want, label, r.brief()))
        return DIV.findall(r.out), r.distinct, r.transitions

    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, range(len(parts))))
    finally:
        shutil.rmtree(d)
    divs = [x for r in rs for x in r[0]]
    return divs, sum(r[1] for r in rs), sum(r[2] for r in rs)


# ---------------------------------------------------------------------------- the writer
WRITER_INV = ["ReadBack", "NeverRejected", "PrefixRead", "Covered", "ReservedApart"]


def _written(path):
    docs = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for l in f:
                d = json.loads(json.loads(l))
                old = docs.setdefault(d["text"], d["tree"])
                if old != d["tree"]:
                    raise ToolError("the specification writes one text for two trees: %r" % d["text"])
    return docs


def write_all(groups, fuel, rotate=(0,), workers=JOBS, timeout=800):
    """Model checks ElmDeriv exhaustively.  Returns ({text: tree}, Tlc)."""
    d = tempfile.mkdtemp(prefix="elmwrite-")
    try:
        out = os.path.join(d, "docs")
        r = tlc("ElmDeriv", cfg("DerivSpec", {"Groups": tla_set(groups), "Fuel": fuel, "Rotate": tla_set(rotate),
                                              "Random": "FALSE"}, WRITER_INV),
                {"ELM_OUT": out}, workers=workers, heap="8g", timeout=timeout)
        if not r.ok:
            raise ToolError("the specification does not hold by itself:\n" + r.brief())
        return _written(out), r
    finally:
        shutil.rmtree(d)


def write_random(groups, fuel, num, seed, rotate=range(30), timeout=800):
    """Simulates ElmDeriv: `num` random files in each of several processes.  Repeatable."""
    d = tempfile.mkdtemp(prefix="elmwrite-")

    def one(k):
        out = os.path.join(d, "docs%d" % k)
        r = tlc("ElmDeriv", cfg("DerivSpec", {"Groups": tla_set(groups), "Fuel": fuel, "Rotate": tla_set(rotate),
                                              "Random": "TRUE"}, WRITER_INV),
                {"ELM_OUT": out}, ["-simulate", "num=%d" % num, "-depth", "4000", "-seed", str(seed * 1000 + k)],
                timeout=timeout)
        if not r.ok:
            raise ToolError("the specification does not hold by itself:\n" + r.brief())
        return _written(out), r
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, range(JOBS)))
    finally:
        shutil.rmtree(d)
    docs = {}
    for x, _ in rs:
        docs.update(x)
    t = Tlc("", 0)
    t.generated = sum(r.generated for _, r in rs)
    t.distinct = t.generated
    t.traces = sum(r.traces for _, r in rs)
    t.transitions = sum(r.transitions for _, r in rs)
    return docs, t
