from hypothesis import strategies as st

from vlib import model, render, strat
from vlib.core import Sub
from vlib.judge import cases, compare, figs_of, observe

RULE = "a document with at least one table nested in the description cell of a named row"


def strip(e):
    return model.canon_entity(e, briefs=False)


def run(case):
    o, exp = observe(case)
    compare(o, exp, strip, what="entities")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        if depth:
            labels |= {"nontrivial", f"depth {depth}", "nested " + f["t"]}
        for r in f["rows"]:
            n = len(r.get("sub", []))
            if n > 1:
                labels.add("several in one cell")
            if n:
                labels.add("inside " + f["t"])
            if r.get("subx") or r.get("suba"):
                labels.add("nested in another column")
            if n and "lo" not in r["key"] and f["t"] != "values":
                labels.add("below unparseable offset")
            if r.get("tail"):
                labels.add("nested in a list item")
            if r.get("subonly"):
                labels.add("table first in its cell")
    return labels


def other_body():
    """a nested table of a kind that is not extracted"""
    return st.builds(
        lambda h, n: {"t": "other", "cols": [["x", h], ["x", "Remark"]], "rows": [{"r": "f", "x": ["a", "b"]}] * n},
        st.sampled_from(["Entry", "Field", "Index", "Bits and pieces"]), st.integers(0, 2))


@st.composite
def decorate(draw, base):
    """Adds nested tables in other columns, and nested tables which are not extracted."""
    case = draw(base)
    for f, depth in figs_of(case["doc"]):
        if f["t"] == "other":
            continue
        o = strat.Opt(rows=(1, 2), nested=0, odd_rows=False, xmax=0, brief=None, more=False)
        for r in f["rows"]:
            if r["r"] != "f":
                continue
            k = draw(st.integers(0, 15))
            if k > 13:
                # a table, but not directly in the cell
                inner = render.R().table(draw(strat.figure_body(o)), nested=True)
                r["tail"] = [["raw", draw(st.sampled_from(["<ul><li><p>x</p>{}</li></ul>", "<ol><li>{}</li></ol>", "<ul><li><span>x</span></li><li><ul><li>{}</li></ul></li></ul>"])).replace("{}", inner)]]
            if k == 0 and any(c[0] == "x" for c in f["cols"]):
                r["subx"] = [draw(strat.figure_body(o))]
            elif k == 1 and "at" in r:
                r["suba"] = [draw(strat.figure_body(o))]
            elif k == 2 and r.get("sub"):
                r["sub"] = list(r["sub"]) + [draw(other_body())]
            elif k < 8 and r.get("sub") and "at" in r:
                # the row is named elsewhere: nothing but tables in the description, or tables first
                r["subonly"] = True
                if k < 5:
                    r["last"] = True
    return case


o = strat.Opt(nested=3, rows=(1, 4), brief=None, more=False, acr=None, rawkeys=True, dynamic=True)
wide = strat.Opt(nested=1, rows=(3, 9), brief=None, more=False, shuffle=True, xmax=2)


@st.composite
def chain(draw):
    """one table per level"""
    oo = strat.Opt(rows=(1, 2), odd_rows=False, xmax=0, brief=None, more=False)
    fig = None
    for _ in range(draw(st.integers(2, 9))):
        f = draw(strat.figure_body(oo))
        if fig is not None:
            r = f["rows"][-1 if draw(st.booleans()) else 0]
            r["sub"], r["br"] = [fig], draw(strat.long_brief())
        fig = f
    fig.update(id="7", cap="Figure 7: Chain")
    return {"doc": {"spec": "S", "rev": "1", "figs": [fig]}, "style": draw(strat.styles)}


SUBS = [
    Sub("trees", decorate(cases(o, 1, 2)), run, 1800),
    Sub("many rows", decorate(cases(wide, 1, 1)), run, 800),
    Sub("chains", chain(), run, 500),
]
