from vlib import docx, dstrat
from vlib.core import Sub, same
from vlib.props.c17 import convert

RULE = "a document with a merged cell, a shaded cell, a nested table or an identified table"


def norm(t, w):
    """drop what is not claimed"""
    if w["id"] == "?":
        t["id"] = w["id"] = None
    for r, wr in zip(t["rows"], w["rows"]):
        for c, wc in zip(r, wr):
            if wc["tag"] == "th":
                c["bg"] = wc["bg"] = None
            for b, wb in zip([b for b in c["b"] if b[0] == "t"], [b for b in wc["b"] if b[0] == "t"]):
                norm(b[1], wb[1])


def run(case):
    o, got, want, _ = convert(case)
    for t, w in zip(got, want):
        norm(t, w)
    same([docx.structure(t) for t in got], [docx.structure(t) for t in want], "structure of the tables")
    same([docx.paragraphs(t) for t in got], [docx.paragraphs(t) for t in want], "texts of the cells")
    labels = set()
    for i, t in enumerate(docx.all_tables(want)):
        cs = [c for r in t["rows"] for c in r]
        for n, v in (("column span", any(c["cs"] > 1 for c in cs)), ("row span", any(c["rs"] > 1 for c in cs)),
                     ("both spans", any(c["rs"] > 1 and c["cs"] > 1 for c in cs)), ("header", any(c["tag"] == "th" for c in cs)),
                     ("colour", any(c["bg"] for c in cs)), ("id", t["id"]), ("empty row", any(not r for r in t["rows"])),
                     ("nested", any(b[0] == "t" for c in cs for b in c["b"]))):
            if v:
                labels |= {n, "nontrivial"}
    return labels


short = dstrat.words
grid = dstrat.Opt(rows=8, cols=8, merge=True, shd=1, ragged=True, blocks=(0, 1), depth=1, odd=False, text=short, runs=1)
small = dstrat.Opt(rows=4, cols=4, merge=True, shd=2, blocks=(0, 2), depth=3, odd=False, text=short, runs=2, ragged=True)
SUBS = [
    Sub("grids", dstrat.document(grid, hi=1), run, 1600),
    Sub("nested", dstrat.document(small, hi=4), run, 1200),
]
