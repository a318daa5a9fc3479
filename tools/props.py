#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PROPS, CHECKS, NA = [], [], []
S = "pkm/src/pkm/"


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, level="model_checking", na=None,
         state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": tests,
                  "anchors": {"files": [S + f if not f.startswith("pkm") else f for f in files],
                              "mechanism": [{"name": n, "where": (S + w if not w.startswith("pkm") else w)} for n, w in mech]}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"python3 checks/run.py {id}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {id}",
                       "evidence_file": f"evidence/{id}.json", "technique": technique, "level": level, "level_note": note})


prop("C01", "Versions form the PEP 440 total order whatever their spelling",
     "Comparing two standard versions (<, <=, ==, hash, sorting) gives exactly the PEP 440 total order, including epochs, pre-, post- and dev-releases, trailing zeros and local labels; equal versions hash equally. Every accepted spelling of a version denotes the same version as its canonical spelling, and printing a version and parsing it back gives an equal version.",
     ["inputs"], "all pairs and triples of standard versions, all accepted spellings of each",
     "the tests compare a dozen hand-written versions; the order has to be total, transitive and spelling independent on an infinite set",
     ["api/versions/version.py", "api/versions/version_parser.py"],
     [("version comparison", "api/versions/version.py"), ("version parser", "api/versions/version_parser.py")],
     "TLA+ (Versions.tla) order checked by TLC for totality/transitivity; TLC-enumerated version universe and seeded spellings run through the real parser and comparators, results judged by TLC",
     "the specification's order is model checked on an enumerated universe, and every ordered pair of that universe plus random versions and spellings is executed on the code and judged by TLC")

prop("C02", "A version specifier admits exactly the versions its text describes",
     "For every textual specifier (==, !=, <, <=, >, >=, ~=, prefix matches .*, and comma separated conjunctions) and every standard version, the answer to 'does this version satisfy it' is the one the comparison operators of PEP 440 define over the version order (pkm's reading of post-releases: one is inside an interval only if the lower bound is a post-release too or it equals an included bound). Printing a specifier and parsing it back admits the same versions.",
     ["inputs"], "all specifier texts and candidate versions",
     "tests check a handful of fixed specifier/version pairs; boundary versions of each operator are unbounded in number",
     ["api/versions/version_specifiers.py", "api/versions/version_parser.py"],
     [("specifier parsing", "api/versions/version_parser.py"), ("allows_version", "api/versions/version_specifiers.py")],
     "TLA+ denotational semantics (Specifiers.tla); specifiers and boundary candidates executed on the real parser, membership judged by TLC",
     "membership and print/parse round trips of generated specifiers of every operator, with candidates concentrated around the bounds, judged against the specification by TLC")

prop("C03", "Specifier set operations are exact set algebra",
     "Intersection, union, difference and complement of any version specifiers (built to any depth) admit exactly the versions that the corresponding set operations on their sets of versions admit; the overlap and containment questions (allows any / allows all) and specifier equality agree with those sets. Operations neither modify their operands nor raise.",
     ["inputs", "programs"], "all expression trees of specifier operations over release and pre-release bounds, all plain versions",
     "tests sample a few unions and intersections; the solver composes these operations into arbitrarily nested forms",
     ["api/versions/version_specifiers.py"],
     [("set operations", "api/versions/version_specifiers.py")],
     "TLA+ denotational semantics (Specifiers.tla) of expression trees; results of the real operations on a witness-complete universe of versions judged by TLC",
     "exhaustive pairs of atoms over a grid plus random expression pairs; TLC checks the witness universe separates all bounds, so a set of versions is determined by its trace on it")

exec((V / "tools" / "props_more.py").read_text()) if (V / "tools" / "props_more.py").exists() else None

with (V / "properties.jsonl").open("w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "python3 checks/setup.py", "checks": CHECKS, "not_applicable": NA,
    "notes": "model-based verification with TLA+ (TLC); see DESIGN.md"}, indent=1) + "\n")
