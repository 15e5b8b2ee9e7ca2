from hypothesis import strategies as st

from vlib import model, strat
from vlib.core import Sub
from vlib.judge import compare_lint, figs_of, observe

RULE = "a structure of at least three fields in which the reference reports an overlap, a gap or a wrong row order"
CODES = {"T1001", "T1002", "T1004"}


def run(case):
    o, exp = observe(case)
    compare_lint(o, exp, CODES)
    labels = set()
    rep = {d["code"] for d in exp.lint if d["code"] in CODES}
    n = max((sum(r["r"] in ("f", "res") for r in f["rows"]) for f, _ in figs_of(case["doc"]) if f["t"] != "values"), default=0)
    labels |= {"reported " + c for c in rep} or {"clean"}
    k = sum(d["code"] in CODES for d in exp.lint)
    if k > 1:
        labels.add("several reports")
    if n >= 3 and rep:
        labels.add("nontrivial")
    if any(d > 0 for f, d in figs_of(case["doc"])):
        labels.add("nested")
    for f, _ in figs_of(case["doc"]):
        labels |= {"row " + r["r"] for r in f["rows"]} | {f["t"]}
    return labels


@st.composite
def layout_fig(draw, depth=0):
    t = draw(st.sampled_from(["bits", "bytes"]))
    mode = draw(st.sampled_from(["ordered", "ordered", "any", "small"]))
    cols = [["key", strat.KEYH[t][0]], ["desc", "Description"]]
    n = draw(st.integers(0, 8))
    keys, pos, low = [], draw(st.sampled_from([0, 0, 1, 10**12])), 0
    for _ in range(n):
        if mode == "small":
            lo, hi = draw(st.integers(0, 5)), draw(st.integers(0, 5))
        else:
            w = draw(st.sampled_from([1, 1, 2, 4, 32, 1000]))
            adj = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 50, -1, -1, -w] + ([-100, -3] if mode == "any" else [])))
            lo = max(0, pos + adj)
            if mode == "ordered":
                lo = max(lo, low)
            low, hi = lo, lo + w - 1
            pos = hi + 1
        keys.append({"t": strat.span_text(draw, lo, hi), "lo": lo, "hi": hi})
    if t == "bits":
        keys.reverse()
    rows = []
    for i, k in enumerate(keys):
        kind = draw(st.integers(0, 19))
        if kind == 0:
            rows.append({"r": "ell"})
        elif kind == 1:
            rows.append({"r": "ellkey"})
        elif kind == 2:
            rows.append({"r": "com", "text": "Remark"})
        elif kind == 3:
            rows.append({"r": "elllab", "key": k})
            continue
        elif kind == 4:
            k = draw(strat.raw_key)
        if kind in (5, 6, 7):
            rows.append({"r": "res", "key": k, "word": draw(st.sampled_from(["Reserved", "Obsolete"]))})
            continue
        row = {"r": "f", "key": k, "nm": {"n": f"Field {chr(65 + i)}", "a": f"F{i}"}, "br": None}
        if depth < 2 and kind > 17:
            row["sub"], row["br"] = [draw(layout_fig(depth + 1))], draw(strat.long_brief())
        rows.append(row)
    return {"t": t, "cols": cols, "rows": rows}


@st.composite
def cases(draw):
    figs = []
    for i in range(draw(st.integers(1, 3))):
        f = draw(layout_fig())
        figs.append(dict(f, id=str(i + 1), cap=f"Figure {i + 1}: Layout"))
    return {"doc": {"spec": "S", "rev": "1", "figs": figs}}


SUBS = [Sub("layouts", cases(), run, 5000)]
