"""Files and directories for the command line tools."""
import json, os, random, shutil, tempfile
import common as C, cli as K, docs as D

GOOD = ["x = 1\n", "x = \"a\tb\"\n", "module A exposing (..)\n\nimport B exposing (c, D(..), (+))\n\nf : Int -> Int\nf a =\n    a + 1\n",
        "-- only a comment", "{- block\n   comment -}\n", "x = 'a'\n", "x = \"\"\"\n  text \"quoted\"\n\"\"\"\n", "x = \"é日😀\"\n", "x = 1\n\n\n\n   \n",
        "\n\n  x = 1", "type A = B | C\n", "x = 1\r\n\r\ny = 2\r\n", "x = '\\x41'\n", "infixl 5 +++\n", "port a : B -> Cmd c\n", "x = \"\\\\ \\\" \\n\"\n",
        "x = 'é'\n", "x = 12345678901234567890123456789\n"]
BAD = ["", " ", "\n\n", "x = 1\n)", "x =", "\ufeffx = 1\n", "x = \"open\n", "import a\n", "{- open", "x = 1 y", "module", "x = )\n", "no\n", "x = 1\x00", "x = [1,\n",
       "\x00", "type a = B\n)", "x = 'ab'\n", "12\n", "x = 1\n\x1a"]
_T = "module A exposing (..)\n\n\nx = \"\u00e9\"\n"
RAW = [b"\xff", b"x = 1\n\xc3\x28", b"x = \"\xed\xa0\x80\"\n", b"\xfe\xffx = 1", b"x = 1\n\x80"] + \
      ["x = 1\n".encode(e) for e in ("utf-16", "utf-32")] + [_T.encode(e) for e in ("utf-16", "utf-32", "latin-1", "cp437")] + [b"\xfe\xff" + _T.encode("utf-16-be"), b"\xff\xfe" + "x = 1\n".encode("utf-16-le"), _T.encode() + b"\xff", b"\xff" + _T.encode(),
       _T.encode()[:-4] + _T.encode()[-3:], b"x = \"\xc0\x80\"\n", b"x = \"\xf5\x80\x80\x80\"\n", b"x = 1\n-- \xe2\x80", b"x = \"\xe9\"\n", b"-- \x93c\x94\nx = 1\n", b"\x1f\x8b\x08\x00x = 1\n", b"x = 1\n" * 2000 + b"\xff", b"\xef\xbb\xbf\xffx = 1\n"]
NAMES = [b"a.elm", b"Main.elm", b"b c.elm", b"d'e.elm", b"q\"r.elm", b"back\\slash.elm", "é日.elm".encode(), "😀.elm".encode(), b".hidden.elm", b"a.b.elm", b"-dash.elm",
         b"new\nline.elm", b"tab\t.elm", b"X.elm", b"elm.elm", b"a.elm.elm", b"..elm", b"very_long_name_" + b"z" * 200 + b".elm", b"1.elm", b"$HOME.elm", b"*.elm", b"%s.elm",
         b"test.elm", b"Tests.elm", b"~a.elm", b"#a.elm", b"con.elm", b"a;b.elm", b"(x).elm", b"{y}.elm", b"Elm.elm", "e\u0301.elm".encode()]
OTHER = [b"a.ELM", b"a.Elm", b"a.elm~", b"a.elmx", b"elm", b".elm", b"README.md", b"a.el", b"aelm", b"a.elm.bak", b"a.elm ", b"a.hs", b"elm.json", b"elm-package.json", b"a_elm",
         b"aXelm", b"a.elm.txt", b"noext"]
DIRS = [b"src", b"d.elm", b"elm-stuff", b".git", b"node_modules", b"tests", b"a b", "ü".encode(), b".hidden", b"x.elm", b"build", b"-q", b"A", b"deep"]


def big(n):
    """A file of some n kB."""
    return "".join("x%d =\n    f %d \"%s\"\n\n\n" % (k, k, "text " * 395) for k in range(n // 2))


def content(rng, pool):
    r = rng.random()
    if r < .25:
        return rng.choice(BAD).encode()
    if r < .32:
        return rng.choice(RAW)
    if r < .6:
        return rng.choice(GOOD).encode()
    return rng.choice(pool).encode("utf-8")


def single_files(b, rng, pool, count):
    """One file at a time, under all kinds of names, paths and options.  Returns recorded runs."""
    root = tempfile.mkdtemp(prefix="elmfiles-")
    try:
        jobs = []
        bigs = [big(72).encode(), (big(70) + ")").encode(), b"-- " + b"c" * 1100000 + b"\nx = )\n", b"x = \"" + b"s" * 1100000 + b"\"\n"]
        fixed = [t.encode() for t in GOOD + BAD] + RAW + bigs
        for i in range(count):
            c = fixed[i % len(fixed)] if i < 2 * len(fixed) else content(rng, pool)
            name = rng.choice(NAMES + NAMES + OTHER)
            sub = rng.choice([b"", b"", b"sub", b"d.elm", b"a b/c", "ü".encode()])
            d = os.path.join(os.fsencode(root), b"%d" % i, sub)
            os.makedirs(d)
            p = os.path.join(d, name)
            with open(p, "wb") as f:
                f.write(c)
            cwd = os.path.join(os.fsencode(root), b"%d" % i)
            rel = os.path.relpath(p, cwd)
            how = rng.randrange(6)
            arg = p if how == 0 else b"./" + rel if how == 1 or rel.startswith(b"-") else rel if how == 2 else os.path.join(b"..", b"%d" % i, rel)
            if how == 4:
                os.symlink(p, os.path.join(cwd, b"link to it"))
                arg = b"link to it"
            if how == 5:                                                # the file is a pipe
                arg = b"/dev/stdin"
            jobs.append((i, arg, cwd, c, name))
        texts = []
        for j in jobs:
            try:
                texts.append(j[3].decode("utf-8"))
            except UnicodeDecodeError:
                texts.append(None)
        trees = K.alone(b, texts)
        OPTS = [[], ["-q"], ["--quiet"]]

        def run(k):
            i, arg, cwd, c, name = jobs[k]
            t = texts[k]
            recs = []
            for o in (0, 1 + i % 2):
                cmd = [b.dump] + (OPTS[o] + [arg] if i % 4 < 2 else [arg] + OPTS[o])
                ended, said = K._run(cmd, cwd, given=c if arg == b"/dev/stdin" else None)
                base = {"quiet": o > 0, "dir": False, "ended": ended,
                        "files": [{"name": list(name.decode("utf-8", "replace")), "dir": False, "readable": t is not None,
                                   "src": list(t or ""), "cps": [ord(x) for x in t or ""]}],
                        "cmd": [os.fsdecode(x) if isinstance(x, bytes) else x for x in cmd[1:]]}
                if o:
                    base["said"] = K.quiet_events(said, {K.norm(arg): 1})
                    recs.append((base, None))
                else:
                    recs.append((base, said))
            return recs
        out = []
        for k, rs in enumerate(K.pmap(run, range(len(jobs)))):
            for base, said in rs:
                if said is not None:
                    base["said"] = K.loud_events(b, said, {1: trees.get(texts[k]) if texts[k] is not None else None})
                base["id"] = "s%d" % len(out)
                out.append(base)
        return out
    finally:
        shutil.rmtree(root)


def tree_of_files(rng, pool, n):
    """A directory with n entries or so, in creation order."""
    dirs, entries, used = [b""], [], set()
    for _ in range(n):
        d = rng.choice(dirs)
        r = rng.random()
        if r < .2:
            rel = os.path.join(d, rng.choice(DIRS))
            kind, c = "dir", b""
        elif r < .27:
            rel = os.path.join(d, rng.choice([b"l.elm", b"link", b"m.elm", b"dl.elm"]))
            kind = "link"
            c = rng.choice([b"nowhere", b"l.elm", b"..", b".", b"a.elm", b"/dev/null", b"Main.elm"])
        elif r < .42:
            rel, kind, c = os.path.join(d, rng.choice(OTHER)), "file", content(rng, pool)
        else:
            name = rng.choice(NAMES)
            if rng.random() < .05:
                name = rng.choice([b"\xff.elm", b"a\xfe\xfd.elm", b"\xc3.elm"])
            rel, kind, c = os.path.join(d, name), "file", content(rng, pool)
        if rel.decode("utf-8", "replace") in used or len(rel) > 1500:   # names that print alike could not be told apart
            continue
        used.add(rel.decode("utf-8", "replace"))
        if kind == "dir":
            dirs.append(rel)
        entries.append(K.Entry(rel, kind, c))
    return entries


def shaped(rng, pool):
    """Directories of a particular shape."""
    def f(rel, c=None):
        return K.Entry(rel, "file", c if c is not None else content(rng, pool))
    good, bad = GOOD[0].encode(), b"x ="
    out = [[], [f(b"a.elm", good)], [f(b"a.elm", bad)], [K.Entry(b"e", "dir"), K.Entry(b"d.elm", "dir")],
           [f(b"t%04d.elm" % k, b"x = )" if k == 1090 else RAW[0] if k == 1097 else b"x = %d" % k if k % 300 == 17 else good) for k in range(1100)],
           [f(n, good) for n in NAMES], [f(n, bad) for n in NAMES], [f(n, good) for n in OTHER] + [f(b"z.elm", good)],
           [f(os.path.join(*([b"d"] * k + [b"a.elm"])), good if k % 2 else bad) for k in range(1, 60)],
           [f(os.path.join(d, n), good) for d in DIRS for n in (b"a.elm", b"b.txt")],
           [f(b"m%02d.elm" % k, ("x%d = %d\n" % (k, k)).encode()) for k in range(150)],
           [f(b"m%02d.elm" % k, RAW[k % 5] if k % 2 else good) for k in range(12)],
           [f(b"a%d.elm" % k, bad) for k in range(20)] + [f(b"b%d.elm" % k, good) for k in range(20)],
           [f(b"a.elm", good), K.Entry(b"b.elm", "link", b"a.elm"), K.Entry(b"c.elm", "link", b"nowhere"), K.Entry(b"d.elm", "link", b"d.elm"),
            K.Entry(b"sub", "dir"), K.Entry(b"ln", "link", b"sub"), f(b"sub/e.elm", good), K.Entry(b"sub/up.elm", "link", b".."), f(b"zz.elm", bad)],
           [f(b"same%d.elm" % k, good) for k in range(10)] + [f(b"sub/same%d.elm" % k, good) for k in range(10)],
           [f(b"b/c/a.elm", bad), f(b"b/a.elm", RAW[0]), f(b"a.elm", good), f(b"b/c/d/e/f/a.elm", good)],
           [f(b"\xff.elm", good), f(b"d\xfe/a.elm", bad), f(b"d\xfe/\xfd.elm", good), f(b"z.elm", good)]]
    return out


def near_copies(rng, pool, n):
    """Files in one directory that differ in a few characters only, of the same length or not."""
    pool = [t for t in pool if len(t) > 40] + [big(2)]
    t = rng.choice(pool)
    out = [K.Entry(b"a0.elm", "file", t.encode())]
    for k in range(1, n):
        d = rng.choice([b"", b"", b"sub/"])
        x = t
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            at = rng.choice([0, len(x) - 1, len(x) // 2, rng.randrange(len(x)), rng.randrange(len(x) // 2, len(x))])
            new = rng.choice([")", "(", "1", "a", " ", "\n", "A", "=", "\"", "-"])
            x = x[:at] + new + (x[at + 1:] if rng.random() < .7 else x[at:])
        out.append(K.Entry(d + rng.choice([b"a%d.elm", b"A%d.elm", b"%dx.elm"]) % k, "file", x.encode()))
    rng.shuffle(out)
    return out


def directories(b, rng, pool, count, most=25):
    """Directory dumps in both modes; returns recorded runs."""
    root = tempfile.mkdtemp(prefix="elmdirs-")
    try:
        scenes = shaped(rng, pool)
        while len(scenes) < count:
            scenes.append(near_copies(rng, pool, rng.randrange(3, 12)) if len(scenes) % 4 == 3 else tree_of_files(rng, pool, rng.randrange(1, most)))
        jobs = []
        for i, es in enumerate(scenes):
            r = os.path.join(os.fsencode(root), b"%d" % i)
            top = rng.choice([b"proj", b"d.elm", b"a b", b"p.q", "ü".encode(), b"src"])
            os.makedirs(os.path.join(r, top))
            os.symlink(top, os.path.join(r, b"to it"))
            es2 = []
            for e in es:
                try:
                    K.lay_out(os.path.join(r, top), [e])
                    es2.append(e)
                except OSError:
                    pass
            jobs.append((i, r, top, es2))
        locked = _locked(root, jobs)
        recs = [K.record(os.path.join(j[1], j[2]), j[3]) for j in jobs]
        for j, r in zip(jobs, recs):
            if j[0] in locked:
                _lock(j, r)
        trees = K.alone(b, ["".join(f["src"]) for r in recs for f in r if f["readable"] and not f["dir"]])

        def run(k):
            i, r, top, es = jobs[k]
            res = []
            for quiet in (True, False):
                form = [top, b"./" + top, os.path.join(r, top), top + b"/", b".", b"to it", b"to it/"][(i + 3 * quiet) % 7]
                cwd = os.path.join(r, top) if form == b"." else r
                opt = [["-q"], ["--quiet"]][i % 2] if quiet else []
                cmd = [b.dump] + (opt + [form] if i % 3 else [form] + opt)
                ended, said = K._run(cmd, cwd, timeout=60, user=K.NOBODY if i in locked else None)
                res.append((quiet, form, ended, said, cmd))
            return res
        out = []
        for k, rs in enumerate(K.pmap(run, range(len(jobs)))):
            i, r, top, es = jobs[k]
            for quiet, form, ended, said, cmd in rs:
                base = {"id": "d%d" % len(out), "quiet": quiet, "dir": True, "ended": ended, "files": recs[k],
                        "cmd": [os.fsdecode(x) if isinstance(x, bytes) else x for x in cmd[1:]],
                        "paths": [e.rel.decode("utf-8", "backslashreplace") for e in es]}
                if quiet:
                    names = {}
                    for n, e in enumerate(es):
                        names.setdefault(K.norm(os.path.join(form, e.rel)), []).append(n + 1)
                    base["said"] = K.quiet_events(said, _unique(names, said))
                else:
                    exp = {}
                    for n, f in enumerate(recs[k]):
                        name = "".join(f["name"])
                        if not f["dir"] and len(name) > 4 and name.endswith(".elm"):
                            exp[n + 1] = trees["".join(f["src"])] if f["readable"] else None
                    base["said"] = K.loud_events(b, said, exp)
                out.append(base)
        return out, len(locked)
    finally:
        for d, ds, _ in os.walk(root):
            for x in ds:
                if not os.path.islink(os.path.join(d, x)):
                    os.chmod(os.path.join(d, x), 0o755)
        shutil.rmtree(root)


def _unique(names, said):
    """Paths as written; where two names are printed alike, each is taken in turn."""
    class Take(dict):
        def get(self, k, default=0):
            v = dict.get(self, k)
            if not v:
                return default
            return v.pop(0) if len(v) > 1 else v[0]
    return Take(names)


def _locked(root, jobs):
    """Scenes run as an unprivileged user, with things in them that user may not read; none if
    the sandbox does not allow becoming one."""
    try:
        import subprocess
        ok = subprocess.run(["/bin/true"], user=K.NOBODY, group=K.NOBODY, extra_groups=[]).returncode == 0
    except (OSError, PermissionError, subprocess.SubprocessError):
        ok = False
    if not ok:
        return set()
    os.chmod(root, 0o755)
    chosen = {j[0] for j in jobs if j[3] and j[0] % 3 == 1}
    return chosen


def _lock(job, recs):
    """Takes away the right to read every third file and one directory with what is in it."""
    i, r, top, es = job
    base = os.path.join(r, top)
    plain = [k for k, e in enumerate(es) if e.kind == "file"]
    linked = {os.path.realpath(os.path.join(base, e.rel)) for e in es if e.kind == "link"}
    for k in plain[::3]:
        p = os.path.join(base, es[k].rel)
        if os.path.realpath(p) in linked:
            continue
        os.chmod(p, 0)
        recs[k].update(readable=False, src=[], cps=[])
    dirs = [e for e in es if e.kind == "dir" and not any(
        os.path.realpath(os.path.join(base, e.rel)) == l or l.startswith(os.path.realpath(os.path.join(base, e.rel)) + b"/") for l in linked)]
    if dirs:
        # what is below it cannot be found: it is no longer part of what can be reported
        d = dirs[i % len(dirs)]
        keep = [k for k, e in enumerate(es) if not e.rel.startswith(d.rel + b"/")]
        recs[:] = [recs[k] for k in keep]
        es[:] = [es[k] for k in keep]
        os.chmod(os.path.join(base, d.rel), 0)
