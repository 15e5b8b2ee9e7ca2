from hypothesis import strategies as st

from vlib import model, strat
from vlib.core import Sub
from vlib.judge import compare, compare_lint, figs_of, observe

RULE = "a structure with a named row after the announcement of a dynamic list"


def project(e):
    return [[model.squeeze(f["range"]), f["label"]] for f in e["fields"]]


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, ["bits", "bytes"], "field ranges")
    compare_lint(o, exp, {"R1001"})
    labels = set()
    for f, depth in figs_of(case["doc"]):
        on = False
        for r in f["rows"]:
            if r["r"] == "list":
                on = "List" in r["text"]
                labels.add("announced" if on else "other header row")
                continue
            if r["r"] == "f":
                rng = model.key_range(r["key"], on)
                if on:
                    labels |= {"nontrivial", "formula" if isinstance(rng, dict) else "not of the form", f["t"]}
                    if depth:
                        labels.add("nested")
                else:
                    labels.add("ordinary row")
    return labels


OTHER = st.sampled_from([[], [], [], ["Header"], ["a", "b"], [""]])


@st.composite
def body(draw, depth=0):
    t = draw(st.sampled_from(["bits", "bytes"]))
    cols = draw(strat.columns(t, xmax=2, shuffle=draw(st.booleans())))
    o = strat.Opt(brief=None, more=False)
    n = draw(st.integers(1, 7))
    keys = draw(strat.struct_keys(t, n))
    rows = []
    for i in range(n):
        kind = draw(st.integers(0, 15))
        if kind < 3:
            rows.append({"r": "list", "text": draw(st.sampled_from(["List of Entries", "Reason List", "Namespace Identifier List", "List"])),
                         "multi": draw(st.integers(0, 2)), "pre": draw(OTHER), "post": draw(OTHER)})
        elif kind == 3:
            # header rows which do not announce a list
            rows.append({"r": "list", "text": draw(st.sampled_from(["Command Dword 10", "Header", "Lasting values", "Entries"]))})
        elif kind == 4:
            rows.append({"r": draw(st.sampled_from(["th", "thlist"]))})
        elif kind == 5:
            rows.append({"r": "com", "text": "List of remarks"})
        key = keys[i]
        if draw(st.booleans()):
            key = draw(st.one_of(strat.dyn_key, strat.dyn_key, strat.dyn_key, strat.raw_key))
        if kind == 6:
            rows.append({"r": "res", "key": keys[i], "word": "Reserved"})
            continue
        row = draw(strat.named_row(o, t, key, cols))
        if depth < 1 and kind > 13:
            row["sub"], row["br"] = [draw(body(depth + 1))], draw(strat.long_brief())
        rows.append(row)
    return {"t": t, "cols": cols, "rows": rows}


@st.composite
def cases(draw):
    figs = [dict(draw(body()), id=str(i), cap=f"Figure {i}: Lists") for i in range(draw(st.integers(1, 3)))]
    return {"doc": {"spec": "S", "rev": "1", "figs": figs}, "style": draw(strat.styles)}


SUBS = [Sub("lists", cases(), run, 4000)]
