#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TRACE = "TLA+ specification of the grammar and layout; TLC checks it (writer against reader) and validates traces of the real parser"
CLI = "TLA+ specification of the tool over the grammar; TLC checks it and validates traces of real runs"
NOTE = ("The specification is model checked (files written by ElmDeriv are read back to the tree they were written for) and bound to the code both ways: "
        "every written file is replayed in the real parser and its tree compared; directed and random texts are run in the real parser and TLC decides whether the recorded run is a behaviour of the specification. "
        "Bounded by the choices per file and the families of texts in DESIGN.md; trusts TLC, the harness that reads the printed tree, and the dialect as specified.")
note = {"C01": "Verdict, no crash, no hang and one answer, on generated texts of all kinds, sizes up to 300 kB and nests up to depth 200 (debug build: 100), with time limits; TLC validates each text's answers against SessionTrace. Not a proof for all inputs; five known findings (exponential time and stack exhaustion) are listed.",
        "C15": "Real runs of elm-parser-dump on single files are traces that TLC validates against DumpCli, which contains the whole grammar; a large sample of texts goes through the tool against ElmTrace. Bounded by the generated files, names and options.",
        "C16": "DumpCli is model checked over every directory of up to two (thorough: three) entries in all walk orders; real directory dumps, including unreadable files and directories as an unprivileged user, are validated as traces. Bounded by the generated directories.",
        "C17": "Real runs of elm-parser-check are traces that TLC validates against CheckCli, which contains the whole grammar. Bounded by the generated files.",
        "C18": "The place where the specification gets stuck is compared by TLC with the text the real tools quote. Bounded by the generated files.",
        "C19": "Cmdline is model checked over every command line of up to four (thorough: five) words; every command line of up to three words, and longer ones at random, is run with the real tools and validated as a trace. Bounded by the words and files chosen."}
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "elm_parser_verif", "enable": "RUSTFLAGS=\"--cfg elm_parser_verif\" (set by lib/common.py for the harness build only)",
               "source_commits": ["8dc4c4d"]},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
                 "technique": "model checking and trace validation: " + ("TLA+ specification of the parser as a service; TLC validates the histories of answers" if p["id"] == "C01" else CLI if p["id"] in ("C15", "C16", "C17", "C18", "C19") else TRACE),
                 "level": "model_checking", "level_note": note.get(p["id"], NOTE)} for p in props],
     "not_applicable": []}
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in m["hooks"]["source_commits"]]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
