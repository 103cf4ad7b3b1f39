"""One check: what it explored, what it found, how it reports."""
import hashlib, json, os, random, re, shutil, sys, tempfile, time
import common as C

KNOWN = os.path.join(C.VERIF, "known-findings.jsonl")


def _digest(run):
    if run["outcome"] != "accept":
        return ""
    return hashlib.sha256(json.dumps([run["tree"], run["parts"]]).encode()).hexdigest()[:16]


class Rng(random.Random):
    def sample(self, of, k, **kw):
        return super().sample(of, min(k, len(of)), **kw)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.b = C.build()
        self.states = self.transitions = self.traces = 0
        self.cover, self.samples, self.found, self.known = {}, [], [], []
        self.canaries = [0, 0]
        self.seen = set()
        self.models = []
        self.queue = {}
        self.places = False       # is the place an error report shows looked at?

    def rng(self, name):
        return Rng("%s %s %d" % (self.prop, name, self.seed))

    def tlc(self, t):
        self.states += t.distinct
        self.transitions += t.transitions

    def count(self, name, n):
        self.cover[name] = self.cover.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 24:
            self.samples.append(x)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def enough(self):
        return bool(self.found)

    # ------------------------------------------------------ files the specification writes
    def written(self, docs, t, what):
        """Replays the files the specification wrote: the parser has to find the same tree."""
        self.tlc(t)
        texts = sorted(docs)
        if not texts:
            raise C.ToolError("the specification wrote nothing (%s)" % what)
        n = 0
        for text, line in zip(texts, C.run_docs(self.b, texts)):
            if line is None:
                continue
            n += 1
            run = json.loads(line)
            if run["outcome"] != "accept":
                self.violation(text, "written by the specification, the parser says " + run["outcome"], docs[text], None)
            else:
                got = C.tree_of(run)
                if got != docs[text]:
                    self.violation(text, "the tree differs from the one the specification wrote", docs[text], got)
        self.traces += n
        self.count("written_files", n)
        self.models.append({"model": "ElmDeriv", "what": what, "states": t.distinct, "transitions": t.transitions,
                            "files_replayed": n, "behaviours": t.traces})
        for text in texts[:: max(1, len(texts) // 2)][:2]:
            self.sample({"written": text[:400]})
        self.log("%s: %d states, %d files replayed" % (what, t.distinct, n))

    def exhaustive(self, groups, fuel, rotate=(0,)):
        if self.enough():
            return
        docs, t = C.write_all(groups, fuel, rotate)
        self.written(docs, t, "every file of up to %d choices from %s" % (fuel, " ".join(groups))
                     + ("" if list(rotate) == [0] else ", names and literals from %d places" % len(rotate)))

    def drawn(self, groups, fuel, num):
        if self.enough():
            return
        docs, t = C.write_random(groups, fuel, num, self.seed)
        self.written(docs, t, "files drawn with %d choices from %s" % (fuel, " ".join(groups)))

    # ------------------------------------------------------------- runs checked as traces
    def docs(self, name, texts, cli=False):
        """Queues texts; many are checked in one go."""
        if self.enough():
            return
        for t in texts:
            if t not in self.seen or cli:
                self.seen.add(t)
                self.queue.setdefault((t, cli), name)
        if len(self.queue) > 45000:
            self.flush()

    def flush(self):
        for cli in (False, True):
            todo = sorted(k[0] for k in self.queue if k[1] == cli)
            for at in range(0, len(todo), 45000):
                if self.enough():
                    break
                part = todo[at:at + 45000]
                names = [self.queue[t, cli] for t in part]
                lines = C.run_docs(self.b, part, cli=cli)
                if not self.places:
                    lines = [l and re.sub(r'"rest": ?-?\d+', '"rest":-1', l, count=1) for l in lines]
                for n, l in zip(names, lines):
                    if l is not None:
                        self.count(n, 1)
                for n in sorted(set(names)):
                    self.sample({n: part[names.index(n)][:300]})
                self.judge("texts through the tool" if cli else "texts", part, [l for l in lines if l is not None])
        self.queue = {}

    def judge(self, name, texts, lines):
        fakes = self.corrupted(lines)
        divs, st, tr = C.validate(lines + fakes, name)
        self.canary(divs, len(fakes), name)
        self.states += st
        self.transitions += tr
        self.traces += len(lines)
        for i, stmt, pos, what in divs:
            if i.startswith("c"):
                continue
            text = texts[int(i)]
            self.violation(text, "diverges from the specification in statement %d at character %s: %s"
                           % (int(stmt) + 1, pos, what), None,
                           next(json.loads(l) for l in lines if re.match(r'\{"id": ?"%s"' % i, l)))
        self.log("%s: %d runs checked against the specification, %d diverge" % (name, len(lines), len(divs) - self.last_canaries))

    def corrupted(self, lines):
        """Wrong runs, made from real ones: the specification has to refuse them."""
        r = self.rng("canary")
        out = []
        pick = [l for l in r.sample(lines, min(len(lines), 60)) if len(l) < 20000]
        for l in pick:
            run = json.loads(l)
            k = len(out)
            run["id"] = "c%d" % k
            if run["outcome"] == "accept" and not run["parts"]:
                if k % 4 == 0:
                    run["outcome"], run["tree"] = "reject", []
                elif k % 4 == 1:
                    run["tree"] = run["tree"][:-1]
                elif k % 4 == 2:
                    run["tree"] = run["tree"] + [run["tree"][0]]
                else:
                    n = run["tree"][-1]
                    while n["c"]:
                        n = n["c"][-1]
                    if n["k"] not in ("Str", "Int", "Chr"):
                        n["k"] += "_"
                    else:
                        n["s"] += "1"
            elif run["outcome"] == "reject" and run["rest"] != -1 and k % 2:
                run["rest"] += 1
            elif run["outcome"] == "reject":
                run["outcome"] = "accept"
                run["tree"] = [{"k": "Comment", "s": "", "c": [{"k": "Str", "s": "never written", "c": []}]}]
            else:
                continue
            out.append(json.dumps(run))
            if len(out) == 8:
                break
        return out

    def canary(self, divs, want, name):
        got = len({d[0] for d in divs if d[0].startswith("c")})
        self.last_canaries = got
        self.canaries[0] += got
        self.canaries[1] += want
        real = any(not d[0].startswith("c") for d in divs)
        if got != want and not real:      # a corruption of a wrong run may be right
            raise C.ToolError("the specification accepted a corrupted run (%s: %d of %d)" % (name, want - got, want))

    def tool_runs(self, name, module, records, describe, corrupt):
        """Runs of a command line tool against its specification."""
        if self.enough():
            return
        fakes = corrupt(records)
        divs, st, tr = C.validate([json.dumps(r) for r in records + fakes], name, module=module)
        self.canary(divs, len(fakes), name)
        self.states += st
        self.transitions += tr
        self.traces += len(records)
        self.count(name, len(records))
        by = {r["id"]: r for r in records}
        for i, a, b, what in divs:
            if i in by:
                key, text = describe(by[i])
                self.violation(text, "diverges from %s at event %s: %s" % (module, a, what), None, by[i], key)
        if records:
            self.sample({name: describe(records[len(records) // 2])[0]})
        self.log("%s: %d runs checked against %s, %d diverge" % (name, len(records), module, len(divs) - self.last_canaries))

    # ------------------------------------------------------------------ one text, one answer
    def session(self, name, texts, cli=False):
        """Every text twice, in different company; its answers as one trace."""
        if self.enough():
            return
        texts = sorted(set(texts))
        answers = [[] for _ in texts]
        r = self.rng("order " + name)
        orders = [list(range(len(texts))), list(range(len(texts)))]
        r.shuffle(orders[1])
        for order in orders:
            args = dict(timeout=20.0, cli=True, stack_kb=8192) if cli else dict(timeout=10.0)
            lines = C.run_docs(self.b, [texts[i] for i in order], **args)
            for i, l in zip(order, lines):
                if l is not None:
                    run = json.loads(l)
                    answers[i].append({"outcome": run["outcome"], "tree": _digest(run)})
        recs = [{"id": str(i), "answers": a} for i, a in enumerate(answers) if a]
        fakes = []
        for i, rec in enumerate(recs[:: max(1, len(recs) // 4)][:4]):
            a = rec["answers"]
            fakes.append({"id": "c%d" % i, "answers": a + [{"outcome": "panic", "tree": ""}] if i % 2 else
                          a + [{"outcome": a[0]["outcome"], "tree": a[0]["tree"] + "x"}]})
        divs, st, tr = C.validate([json.dumps(x) for x in recs + fakes], name, module="SessionTrace")
        self.canary(divs, len(fakes), name)
        self.states += st
        self.transitions += tr
        n = sum(len(x["answers"]) for x in recs)
        self.traces += len(recs)
        self.count(name + " (texts)", len(recs))
        self.count(name + " (answers)", n)
        for i, k, _, what in divs:
            if not i.startswith("c"):
                self.violation(texts[int(i)], "no verdict, or not always the same: " + what, None, answers[int(i)])
        self.sample({name: texts[len(texts) // 2][:300]})
        self.log("%s: %d texts, %d answers" % (name, len(recs), n))

    # --------------------------------------------------------------------------- reporting
    def violation(self, text, why, want, got, key=None):
        self.found.append((len(text), text, why, want, got, key))

    def known_findings(self):
        if not os.path.exists(KNOWN):
            return []
        out = []
        for l in open(KNOWN):
            if l.strip() and not l.startswith("fixed:"):
                f = json.loads(l)
                if f["property"] == self.prop:
                    out.append(f)
        return out

    def finish(self):
        rc = 0
        if self.found:
            self.found.sort(key=lambda v: (v[0], v[1]))
            n, text, why, want, got, key = self.found[0]
            d = os.path.join(C.BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(("%s|%s|%s" % (self.prop, text, key)).encode("utf-8", "replace")).hexdigest()[:12]
            path = os.path.join(d, "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "why": why, "text": text, "what": key, "expected": want, "got": got,
                           "others": [v[1][:2000] for v in self.found[1:20]], "number": len(self.found)}, f, indent=1)
            print("%s: %s" % (self.prop, why))
            print("text: %r" % text[:600])
            if key:
                print("run: %s" % json.dumps(key)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "runs_by_family": self.cover, "models": self.models,
               "corrupted_runs_refused": "%d of %d" % tuple(self.canaries), "entry_point": "verif_parse" if self.b.hooked else "elm-parser-dump"}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.found)}
        if self.known:
            cov["known_findings"] = self.known
        os.makedirs(os.path.join(C.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(C.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d states, %d transitions, %d runs of the real code" % (self.states, self.transitions, self.traces))
        return rc

    def close(self):
        if hasattr(self, "b"):
            shutil.rmtree(self.b.dir, ignore_errors=True)


ASSUMPTIONS = ["TLC evaluates the specification correctly",
               "the harness copies the tree the parser prints ({:#?}) faithfully into the recorded run",
               "the dialect is the one spec/ElmGrammar.tla states (deviations from Elm are listed in DESIGN.md)"]
