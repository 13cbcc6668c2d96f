"""The property table: one module per part of the repository. tools/gen.py writes
properties.jsonl and MANIFEST.json from it."""
ALL = []
NA = []

GVF = "gated value-flow analysis of the resolved AST"
NOTE = ("Decides the structural form of the property from the source on every run: values are compared in a normal form over the reals, "
        "so float rounding is outside it; models of the standard library, Abseil and protobuf are trusted; obligations the analysis cannot "
        "decide are printed as UNDECIDED and do not raise a violation.")


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=GVF, note=NOTE):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mechanism]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    d["_technique"], d["_note"] = technique, note
    ALL.append(d)


def na(id, title, statement, over, text, why, files, mechanism, reason):
    p(id, title, statement, over, text, why, files, mechanism)
    ALL[-1]["_na"] = reason
    NA.append(id)
