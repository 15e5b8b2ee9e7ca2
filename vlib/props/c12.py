import json

from hypothesis import strategies as st

from vlib import render, strat, sut
from vlib.core import Sub, Violation, judging, need, same

RULE = "a document whose lint section has entries both with and without the ignored codes"


def all_codes():
    from spex.jsonspec.lint import Code

    return sorted(c.name for c in Code)


CODES = ["O1000", "T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1001", "L1002", "L1003",
         "L1004", "L1007", "V1000", "V1001", "V1002", "V1003", "R1000", "R1001", "R1002"]


def compare(full, part, ignored):
    with judging("model"):
        same(part["entities"], full["entities"], "entities when ignoring lint codes")
        same({k: v for k, v in part["meta"].items() if k != "lint"}, {k: v for k, v in full["meta"].items() if k != "lint"}, "metadata when ignoring lint codes")
        same(part["meta"]["lint"], [d for d in full["meta"]["lint"] if d["code"] not in ignored], "lint entries left when ignoring codes")
        have = {d["code"] for d in full["meta"]["lint"]}
    labels = {f"ignored {min(len(ignored), 5)}"} | {"present " + c for c in have}
    if have & set(ignored):
        labels.add("some removed")
        if have - set(ignored):
            labels.add("nontrivial")
    if have and not have - set(ignored):
        labels.add("all removed")
    return labels


def run_api(case):
    html = render.html(case["doc"])
    full = sut.model_ok(html)
    part = sut.model_ok(html, ignore=case["codes"])
    return compare(full.model, part.model, case["codes"])


def run_cli(case):
    html = render.html(case["doc"])
    arg = ",".join(sp["l"] + "".join(c.upper() if (sp["case"] >> i) & 1 else c.lower() for i, c in enumerate(code)) + sp["r"]
                   for code, sp in zip(case["codes"], case["spell"]))
    with sut.Dir() as d:
        (d / "in.html").write_text(html, encoding="utf-8")
        for name, extra in (("full", []), ("part", [f"--lint-ignore={arg}"] if case["eq"] else ["--lint-ignore", arg])):
            code = sut.cli(["-s", "-o", d / name] + extra + [d / "in.html"])
            need(code == 0, f"exit status {code} with {extra}")
        try:
            full, part = (json.loads(sut.read(d / n / "in.json")) for n in ("full", "part"))
        except (OSError, ValueError) as e:
            raise Violation(f"no model written: {e}")
    return compare(full, part, case["codes"])


def run_example(case):
    src = sut.examples()[case["example"]]
    with sut.Dir() as d:
        outs = []
        for n, ign in (("full", ()), ("part", case["codes"])):
            (d / n).mkdir()
            o = sut.process(src, d / n, True, ign)
            need(o.exc is None, f"{src.name}: processing failed: {o.exc!r}")
            outs.append(o.model)
    return compare(*outs, case["codes"])


o = strat.Opt(rows=(1, 5), nested=1, brief=None, more=False, contiguous=False, odd_hdr=True, name=strat.struct_name(), vname=strat.value_name())
docs = strat.mixed_document(o, lo=1, hi=5)
LIKELY = ["T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004", "V1002", "R1001"]
codes = st.one_of(st.lists(st.sampled_from(LIKELY), min_size=1, max_size=6, unique=True), st.lists(st.sampled_from(CODES), max_size=21, unique=True))
sp = st.fixed_dictionaries({"l": st.sampled_from(["", " ", "  "]), "r": st.sampled_from(["", " "]), "case": st.integers(0, 31)})


@st.composite
def cli_cases(draw):
    cs = draw(st.lists(st.sampled_from(LIKELY + CODES), min_size=1, max_size=8, unique=True))
    return {"doc": draw(docs), "codes": cs, "spell": draw(st.lists(sp, min_size=len(cs), max_size=len(cs))), "eq": draw(st.booleans())}


SUBS = [
    Sub("api", st.fixed_dictionaries({"doc": docs, "codes": codes}), run_api, 1600),
    Sub("command", cli_cases(), run_cli, 1000),
    Sub("examples", st.fixed_dictionaries({"example": st.integers(0, 7), "codes": codes}), run_example, 32, 400),
]
