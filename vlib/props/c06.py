from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import Sub, judging, same

RULE = "a table with at least one cell spanning two or more rows"
ASSUMPTIONS = ["Spans do not cross header rows, comment rows or rows of fewer columns: what they mean there is not claimed."]


def rect_cells(rows, ncols, picks, last=False):
    """Partition rows x ncols into rectangles: list of rows of (text blocks, h, w) by start cell."""
    n = len(rows)
    owner = [[None] * ncols for _ in range(n)]
    out = [[] for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(ncols):
            if owner[i][j] is not None:
                continue
            h, w = picks[k % len(picks)] if picks else (1, 1)
            k += 1
            w = min(w, ncols - j)
            while any(owner[i][j + d] is not None for d in range(w)):
                w -= 1
            hh = 1
            while hh < h and i + hh < n and all(owner[i + hh][j + d] is None for d in range(w)):
                hh += 1
            for a in range(hh):
                for b in range(w):
                    owner[i + a][j + b] = (i, j)
            # a span may also reach beyond the end of the table
            out[i].append((j, rows[i][j]["b"], hh, w, hh + (h - hh if last and i + hh == n else 0)))
    return out


def merged(rects):
    res = []
    for row in rects:
        res.append([{"b": b, "rs": rs if rs > 1 else None, "cs": w if w > 1 else None} for _, b, _, w, rs in sorted(row, key=lambda c: c[0])])
    return res


def expanded(rects):
    n = len(rects)
    res = [[] for _ in range(n)]
    for i, row in enumerate(rects):
        for j, b, h, w, _ in row:
            for a in range(h):
                res[i + a].append((j, {"b": b, "cs": w if w > 1 else None}))
    return [[c for _, c in sorted(r, key=lambda c: c[0])] for r in res]


def build(fig, how):
    """The figure with spans merged or expanded, nested figures alike."""
    f = dict(fig)
    if "runs" in fig:
        g = []
        for run in fig["runs"]:
            if run["sep"]:
                g += model.grid({"cols": fig["cols"], "rows": run["sep"]})
            body = model.grid({"cols": fig["cols"], "rows": [sub_built(r, how) for r in run["rows"]]})
            g += how(rect_cells(body, len(fig["cols"]), run["picks"], run is fig["runs"][-1]))
        f["grid"] = g
    return f


def sub_built(row, how):
    if not row.get("sub"):
        return row
    return dict(row, sub=[build(s, how) for s in row["sub"]])


def spans(fig):
    n = sum(1 for run in fig["runs"] for row in rect_cells(model.grid({"cols": fig["cols"], "rows": run["rows"]}), len(fig["cols"]), run["picks"])
            for c in row if c[2] > 1)
    return n + sum(spans(s) for run in fig["runs"] for r in run["rows"] for s in r.get("sub", []))


def run(case):
    doc = case["doc"]
    a = sut.model_ok(render.html(dict(doc, figs=[build(f, merged) for f in doc["figs"]])))
    b = sut.model_ok(render.html(dict(doc, figs=[build(f, expanded) for f in doc["figs"]])))
    with judging("model"):
        same(a.entities, b.entities, "entities of merged table versus expanded one")
        same(a.lint, b.lint, "lint of merged table versus expanded one")
    k = sum(spans(f) for f in doc["figs"])
    labels = {f"spans {min(k, 8)}"}
    if k:
        labels.add("nontrivial")
        for f in doc["figs"]:
            labels.add(f"columns {len(f['cols'])}")
            if any(r.get("sub") for x in f["runs"] for r in x["rows"]):
                labels.add("nested")
            for x in f["runs"]:
                for row in rect_cells(model.grid({"cols": f["cols"], "rows": x["rows"]}), len(f["cols"]), x["picks"]):
                    if not row:
                        labels.add("row covered completely")
                    labels |= {"wide span" for c in row if c[3] > 1 and c[2] > 1}
    if any(d["code"] == "T1000" for d in a.lint):
        labels.add("figure failed in both")
    return labels


@st.composite
def spanfig(draw, depth=0):
    t = draw(st.sampled_from(["values", "bits", "bytes"]))
    cols = draw(strat.columns(t, xmax=draw(st.sampled_from([1, 1, 1, 5, 5, 5, 24 if depth == 0 else 5])), shuffle=draw(st.booleans())))
    o = strat.Opt(rows=(1, 6), xmax=0, nested=0, odd_rows=False, contiguous=False)
    runs = []
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        n = draw(st.integers(1, 6 if depth == 0 else 3))
        keys = [{"t": k} for k in draw(st.lists(strat.value_text, min_size=n, max_size=n))] if t == "values" else draw(strat.struct_keys(t, n))
        rows = []
        for k in keys:
            kind = draw(st.integers(0, 11))
            if kind == 0:
                rows.append({"r": "res", "key": k, "word": "Reserved"})
            elif kind == 1:
                rows.append({"r": "ellkey"})
            elif kind == 2 and t != "values":
                rows.append({"r": "elllab", "key": k})
            else:
                row = draw(strat.named_row(o, t, k, cols))
                if depth < 1 and kind > 9:
                    row["sub"] = [draw(spanfig(depth + 1))]
                    row["br"] = draw(strat.long_brief())  # text of the nested table does not matter then
                rows.append(row)
        sizes = st.tuples(st.sampled_from([1, 1, 2, 2, 3, 4, 6]), st.sampled_from([1, 1, 1, 1, 1, 2, 3])).map(list)
        picks = draw(st.lists(sizes, min_size=1, max_size=min(40, n * len(cols))))
        if draw(st.integers(0, 2)) or any(r.get("sub") for r in rows):
            # wide cells may move the text of a nested table into a column where its exact text matters
            picks = [[h, 1] for h, _ in picks]
        sep = [] if i == 0 else draw(st.sampled_from([[{"r": "th"}], [{"r": "com", "text": "Some remark"}]]))
        runs.append({"sep": sep, "rows": rows, "picks": picks})
    return {"t": t, "cols": cols, "runs": runs}


@st.composite
def docs(draw):
    figs = []
    for i in range(draw(st.integers(1, 2))):
        f = draw(spanfig())
        figs.append(dict(f, id=str(i), cap=f"Figure {i}: Spans"))
    return {"doc": {"spec": "S", "rev": "1", "figs": figs}}


SUBS = [Sub("spans", docs(), run, 3000)]
