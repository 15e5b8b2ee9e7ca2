from hypothesis import strategies as st

from vlib import model, strat
from vlib.core import Sub
from vlib.judge import compare_lint, figs_of, observe, obsolete_dup

RULE = "a document in which the reference reports at least one repeated name, repeated value, bad offset or reversed offset"
CODES = {"L1002", "V1002", "R1001", "R1002"}


def run(case):
    o, exp = observe(case)
    wrong = getattr(exp, "unordered", set())

    def drop(d):
        # nothing is claimed on repeated names in structures with a wrong row order
        return obsolete_dup(d) or d["code"] == "L1002" and d["fig"] in wrong

    compare_lint(o, exp, CODES, drop=drop)
    rep = [d["code"] for d in exp.lint if d["code"] in CODES and not drop(d)]
    labels = {"reported " + c for c in rep} or {"clean"}
    if rep:
        labels.add("nontrivial")
    if len(rep) > 2:
        labels.add("several reports")
    if any(d > 0 for f, d in figs_of(case["doc"])):
        labels.add("nested")
    return labels


NAMES = ["Data Size", "Queue Identifier", "Data Segment", "Status", "Type", "Namespace Size", "status", "Data-Size"]


@st.composite
def body(draw, depth=0):
    t = draw(st.sampled_from(["values", "bits", "bytes"]))
    attr = draw(st.integers(0, 5)) == 0
    cols = [["key", strat.KEYH[t][0]]] + ([["attr", "Attribute"]] if attr else []) + [["desc", "Description"]]
    n = draw(st.integers(1, 7))
    bad = draw(st.booleans())
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=draw(st.booleans())))
    if t == "values":
        vals = st.sampled_from(["00h", "01h", "02h", "03h", "0Ah", "0ah", "1", "x y"])
        keys = [{"t": v} for v in draw(st.lists(vals, min_size=n, max_size=n, unique=not bad))]
    else:
        keys = draw(strat.struct_keys(t, n))
    rows = []
    for i, (k, nm) in enumerate(zip(keys, names)):
        kind = draw(st.integers(0, 15))
        if kind == 0:
            rows.append({"r": "ell"})
        elif kind == 1 and t != "values":
            rows.append({"r": "elllab", "key": k})
        elif kind == 2:
            rows.append({"r": "ellkey"})
        elif kind in (3, 4):
            rows.append({"r": "res", "key": k, "word": "Reserved"})
            continue
        elif bad and kind in (5, 6) and t != "values":
            k = draw(strat.raw_key)
        elif bad and kind == 7 and t != "values":
            k = {"t": f"{k['lo']}:{k['hi'] + 1}", "hi": k["lo"], "lo": k["hi"] + 1}
        row = {"r": "f", "key": k, "nm": {"n": nm, "a": draw(st.sampled_from([None, None, "DS", "QID", "ds"]))}, "br": draw(st.sampled_from([None, "Some text"]))}
        if attr:
            row["at"] = {"n": nm, "colon": draw(st.booleans()), "rest": "Some text"}
        if depth < 2 and kind == 15:
            row["sub"], row["br"] = [draw(body(depth + 1))], draw(strat.long_brief())
        rows.append(row)
    return {"t": t, "cols": cols, "rows": rows}


@st.composite
def cases(draw):
    figs = []
    for i in range(draw(st.integers(1, 3))):
        figs.append(dict(draw(body()), id=str(i + 1), cap=f"Figure {i + 1}: Data"))
    return {"doc": {"spec": "S", "rev": "1", "figs": figs}, "style": draw(strat.styles)}


SUBS = [Sub("defects", cases(), run, 4500)]
