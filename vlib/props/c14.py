import json
import os
from pathlib import Path

from hypothesis import strategies as st

from vlib import render, schema, strat, sut
from vlib.core import Sub, Violation, need
from vlib.judge import figs_of

RULE = "a document giving at least one entity and one lint entry"


def judge(raw, model, spec, rev):
    schema.conforms(model)
    schema.lint_ok(model)
    schema.meta_ok(model, spec, rev)
    schema.raw_ok(raw, model)


def labels_of(model, doc=None):
    labels = {"code " + d["code"] for d in model["meta"]["lint"]} | {"type " + e["type"] for e in model["entities"]}
    if any(not c.isascii() for t in schema.texts(model) for c in t):
        labels.add("non-ASCII")
    if model["entities"] and model["meta"]["lint"]:
        labels.add("nontrivial")
    for e in model["entities"]:
        for f in e["fields"]:
            if isinstance(f.get("range"), dict) and isinstance(f["range"].get("low"), str):
                labels.add("dynamic range")
            elif isinstance(f.get("range"), str):
                labels.add("text range")
    for f, depth in figs_of(doc) if doc else ():
        if depth:
            labels.add("nested")
    return labels


def run(case):
    try:
        from spex.validate import validate_json
    except ImportError:  # the command's own validation is another generator's business
        validate_json = None

    doc = case["doc"]
    with sut.Dir() as d:
        name = case.get("name", "doc")
        src = d / f"{name}.html"
        src.write_text(render.html(doc, case.get("style")), encoding="utf-8", newline="")
        out = d / "out"
        out.mkdir()
        o = sut.process(src, out, case.get("skip", True))
        if o.exc is not None:
            need(not case.get("skip", True), "processing failed: %r", o.exc)
            return {"run stopped"}
        files = os.listdir(out)
        need(files == [name + ".json"], f"files written: {files}")
        need(o.result is not None and Path(o.result).resolve() == (out / (name + ".json")).resolve(), "path returned: %r", o.result)
        judge(o.raw, o.model, doc["spec"], doc["rev"])
        try:
            if validate_json is not None:
                validate_json(Path(o.result))
        except Exception as e:
            raise Violation(f"the tool's own validation fails: {type(e).__name__}: {str(e)[:300]}")
    return labels_of(o.model, doc)


def run_cli(case):
    docs = case["docs"]
    labels = set()
    with sut.Dir() as d:
        for i, doc in enumerate(docs):
            (d / f"in{i}.html").write_text(render.html(doc, case.get("style")), encoding="utf-8")
        code = sut.cli(["--validate-json", "--output", d / "o", "-s"] + [d / f"in{i}.html" for i in range(len(docs))])
        bad = False
        for i, doc in enumerate(docs):
            try:
                raw = sut.read(d / "o" / f"in{i}.json")
                model = json.loads(raw)
            except (OSError, ValueError) as e:
                raise Violation(f"no model written (exit status {code} with --validate-json): {e}")
            except Violation:
                if bad and code:
                    break  # stopped at the one before
                raise
            if schema.validator().is_valid(model):
                judge(raw, model, doc["spec"], doc["rev"])
            else:
                # nothing but the listed finding (an entity without values) may violate the schema, and the command has to say so
                bad = True
                labels.add("rejected")
                schema.conforms(model, empty_values=True)
            labels |= labels_of(model, doc)
    labels.add(f"inputs {len(docs)}")
    if bad:
        need(code != 0, "exit status 0 with --validate-json of a model which violates the schema")
    else:
        need(code == 0, f"exit status {code} with --validate-json of conforming models")
    return labels


def run_example(case):
    src = sut.examples()[case["example"]]
    import re

    head = src.read_text(encoding="utf-8")[:4000]
    from html import unescape

    spec = unescape(re.search(r'data-spec="([^"]*)"', head).group(1))
    rev = unescape(re.search(r'data-revision="([^"]*)"', head).group(1))
    with sut.Dir() as d:
        code = sut.cli(["--validate-json", "-o", d, "-s", src])
        need(code == 0, f"exit status {code} with --validate-json for {src.name}")
        raw = sut.read(d / (src.stem + ".json"))
        model = json.loads(raw.decode("utf-8"))
    judge(raw, model, spec, rev)
    return labels_of(model)


o = strat.Opt(rows=(1, 6), nested=2, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=2, shuffle=True,
              free_desc=True, name=strat.struct_name(), vname=strat.value_name())
unfilled = strat.mixed_document(o, lo=1, hi=5)
docs = unfilled.map(strat.fill_values)


def emptied(doc):
    """A value table without any entry comes along."""
    for f, _ in figs_of(doc):
        if f.get("t") == "values":
            return {**doc, "figs": doc["figs"] + [{**f, "id": "999", "cap": "Figure 999: Empty", "rows": []}]}
    return doc


names = st.sampled_from(["doc", "doc", "NVM Express 2.0c", "a.b", "über", ".x", "json", "x.json"])

SUBS = [
    Sub("documents", st.fixed_dictionaries({"doc": docs, "style": strat.styles, "skip": strat.chance(4, 5), "name": names}), run, 1600),
    Sub("command", st.fixed_dictionaries({"docs": st.lists(st.one_of(docs, docs, docs, unfilled, unfilled.map(emptied)), min_size=1, max_size=3), "style": strat.styles}), run_cli, 300),
    Sub("examples", None, run_example, 0, enum=lambda tier: [{"example": i} for i in range(8)]),
]
