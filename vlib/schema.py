"""The model schema as published (data/stage2.schema.json) and the invariants of a model."""
import json
import os

from vlib import boot
from vlib.core import Violation, judging, need

CODES = {"O1000", "T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1001", "L1002", "L1003",
         "L1004", "L1007", "V1000", "V1001", "V1002", "V1003", "R1000", "R1001", "R1002"}
_cache = {}


def validator(empty_values=False):
    """empty_values: accept value tables without entries (a listed finding of C14)"""
    if empty_values not in _cache:
        import jsonschema

        with open(os.path.join(boot.VERIF, "data", "stage2.schema.json")) as fh:
            s = json.load(fh)
        if empty_values:
            del s["properties"]["entities"]["items"]["anyOf"][0]["properties"]["fields"]["minItems"]
        _cache[empty_values] = jsonschema.Draft202012Validator(s)
    return _cache[empty_values]


def conforms(model, empty_values=False):
    e = next(iter(validator(empty_values).iter_errors(model)), None)
    if e is not None:
        raise Violation(f"model violates the schema at {list(e.absolute_path)}: {e.message[:300]}")


def lint_ok(model):
    with judging("lint"):
        for d in model["meta"]["lint"]:
            c = d["code"]
            need(c in CODES, "unknown lint code %r", c)
            need(isinstance(d["msg"], str) and d["msg"].strip(), "lint entry without message: %r", d)
            need(isinstance(d["fig"], str) and d["fig"], "lint entry without figure: %r", d)
            need(isinstance(d["context"], dict), "lint entry without context: %r", d)
            if c[0] in "RLV":
                need(isinstance(d.get("row"), str), "lint entry without row: %r", d)


def texts(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from texts(x)
    elif isinstance(v, list):
        for x in v:
            yield from texts(x)


def raw_ok(raw, model):
    """Non-ASCII text is in the file as is."""
    n = sum(not c.isascii() for c in raw.decode("utf-8"))
    m = sum(not c.isascii() for t in texts(model) for c in t)
    need(n == m, f"model has {m} non-ASCII characters, of which {n} are in the file as is")


def meta_ok(model, spec, rev):
    import spex

    with judging("metadata"):
        m = model["meta"]
        need(m["specification"] == spec.lower(), "specification is %r, expected %r", m["specification"], spec.lower())
        need(m["revision"] == rev.lower(), "revision is %r, expected %r", m["revision"], rev.lower())
        v = m["format version"]
        need(type(v) is int and v >= 1, "format version is %r", v)
        need(m["spex version"] == spex.__version__ and isinstance(m["spex version"], str), "spex version is %r", m["spex version"])
        need(isinstance(m["lint"], list), "no lint list")
        need(set(model) == {"meta", "entities"}, "sections %r", sorted(model))
