"""Runs of the command line tools, recorded for the specifications DumpCli and CheckCli."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C

NOBODY = 65534


def _run(cmd, cwd, timeout=20, user=None, stdin=subprocess.DEVNULL, given=None):
    kw = {"stdin": stdin} if given is None else {"input": given}
    if user is not None:
        kw.update(user=user, group=user, extra_groups=[])
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return "timeout", e.stdout or b""
    return ("ok" if p.returncode == 0 else "crash"), p.stdout


def unescape(s):
    """What a printed Rust string stands for; None if it is not one."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        m = re.compile(r"\\(?:u\{([0-9a-fA-F]{1,6})\}|(.))", re.S).match(s, i)
        if not m:
            return None
        if m.group(1):
            out.append(chr(int(m.group(1), 16)))
        else:
            e = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}.get(m.group(2))
            if e is None:
                return None
            out.append(e)
        i = m.end()
    return "".join(out)


def chunks(text):
    """The pretty printed values a tool wrote, one after the other."""
    out, cur = [], []
    if text == "":
        return out
    for l in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        cur.append(l)
        if (l[:1] in ")]}" and l[:1] != "") if len(cur) > 1 else not l.endswith(("(", "[", "{")):
            out.append("\n".join(cur))
            cur = []
    if cur:
        out.append("\n".join(cur))
    return out


def parse_trees(b, texts):
    """Printed trees as nodes: {"tree", "parts"} or None."""
    if not texts:
        return []
    d = tempfile.mkdtemp(prefix="elmdebug-")
    try:
        src, dst = os.path.join(d, "in"), os.path.join(d, "out")
        with open(src, "wb") as f:
            for i, t in enumerate(texts):
                e = t.encode("utf-8", "replace")
                f.write(b"%d %d\n" % (i, len(e)) + e + b"\n")
        p = subprocess.run([b.harness, "debug", src, dst])
        lines = open(dst, encoding="utf-8").read().split("\n")[:-1]
        if p.returncode != 0 or len(lines) != len(texts):
            raise C.ToolError("the harness could not read printed trees")
        return [json.loads(l) for l in lines]
    finally:
        shutil.rmtree(d)


class Entry:
    """One thing in a directory: rel is its path below the directory (bytes)."""
    def __init__(self, rel, kind, content=b""):
        self.rel, self.kind, self.content = rel, kind, content    # kind: file dir link locked

    def text(self):
        try:
            return self.content.decode("utf-8")
        except UnicodeDecodeError:
            return None


def lay_out(root, entries):
    """Creates the entries below root."""
    for e in entries:
        p = os.path.join(root, e.rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e.kind == "dir":
            os.makedirs(p, exist_ok=True)
        elif e.kind == "link":
            os.symlink(e.content, p)
        else:
            with open(p, "wb") as f:
                f.write(e.content)


def record(root, entries, user=None):
    """What the specification is told about the entries."""
    out = []
    for e in entries:
        p = os.path.join(root, e.rel)
        text, isdir = None, os.path.isdir(p)
        if not isdir:
            try:
                text = open(p, "rb").read().decode("utf-8")
            except (OSError, UnicodeDecodeError):
                text = None
        if e.kind == "locked":
            text = None
        name = os.path.basename(e.rel).decode("utf-8", "replace")
        out.append({"name": list(name), "dir": isdir, "readable": text is not None,
                    "src": list(text or ""), "cps": [ord(c) for c in text or ""]})
    return out


QUIET = re.compile(r'"((?:[^"\\]|\\.)*)" (parsed successfully|failed to parse)$', re.S)


def norm(p):
    return os.path.normpath(p.decode("utf-8", "replace") if isinstance(p, bytes) else p)


def quiet_events(stdout, names):
    """names: {path as the tool may write it: file number}."""
    out = []
    text = stdout.decode("utf-8", "replace")
    if text == "":
        return out
    for l in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        m = QUIET.match(l)
        p = unescape(m.group(1)) if m else None
        f = names.get(norm(p), 0) if p is not None else 0
        what = "junk" if not m else "ok" if m.group(2) == "parsed successfully" else "fail"
        out.append({"f": f, "what": what, "tree": [], "parts": [], "line": l[:300]})
    return out


def loud_events(b, stdout, expected):
    """expected: {file number: canonical tree or None}.  A tree does not say whose it is: any
    file not reported yet that has this tree will do; the specification decides whether it is."""
    cs = chunks(stdout.decode("utf-8", "replace"))
    trees = parse_trees(b, [c if c.startswith("[") else "" for c in cs])
    left, out = dict(expected), []
    for c, t in zip(cs, trees):
        if t is not None and c.startswith("["):
            key = canon(t)
            ev = {"what": "tree", "tree": t["tree"], "parts": t["parts"]}
        else:
            key = None
            ev = {"what": "junk" if c.startswith("[") else "error", "tree": [], "parts": []}
        f = next((k for k in sorted(left) if left[k] == key), 0)
        if not f and left:
            f = sorted(left)[0]
        left.pop(f, None)
        ev.update(f=f, line=c[:300])
        out.append(ev)
    return out


def canon(t):
    return json.dumps([t["tree"], t["parts"]], sort_keys=True)


def alone(b, texts):
    """canonical tree of each text, None if it does not parse."""
    todo = sorted({t for t in texts if t is not None})
    res = {}
    for t, l in zip(todo, C.run_docs(b, todo)):
        r = json.loads(l)
        res[t] = canon(r) if r["outcome"] == "accept" else None
    return res


def quoted(report, text):
    """How many characters at the end of the text an error report quotes; -2: something else."""
    i = report.find('"')
    m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(report, i) if i >= 0 else None
    q = unescape(m.group(1)) if m else None
    return len(q) if q is not None and text.endswith(q) else -2


def check_events(told, ended, text=None):
    """What elm-parser-check printed; with the text, also where its error report points."""
    e = _check_events(told, ended)
    e["rest"] = quoted(told.decode("utf-8", "replace"), text) if text is not None and e["told"] == "error" else -1
    return e


def _check_events(told, ended):
    if ended != "ok":
        return {"told": ended, "names": []}
    cs = chunks(told.decode("utf-8", "replace"))
    if len(cs) != 1:
        return {"told": "noise", "names": []}
    c = cs[0]
    if c == "[]":
        return {"told": "list", "names": []}
    if c.startswith("[\n"):
        names = []
        for l in c.split("\n")[1:-1]:
            m = re.match(r'    "((?:[^"\\]|\\.)*)",?$', l)
            n = unescape(m.group(1)) if m else None
            if n is None:
                return {"told": "junk", "names": []}
            names.append(n)
        return {"told": "list", "names": names} if c.endswith("\n]") else {"told": "junk", "names": []}
    if c.startswith("["):
        m = re.match(r'\[("(?:[^"\\]|\\.)*"(?:, "(?:[^"\\]|\\.)*")*)\]$', c, re.S)
        if m:
            return {"told": "list", "names": [unescape(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))]}
        return {"told": "junk", "names": []}
    return {"told": "error", "names": []}


def pmap(f, xs):
    with ThreadPoolExecutor(C.JOBS) as ex:
        return list(ex.map(f, xs))
