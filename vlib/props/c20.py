from vlib import docx, dstrat
from vlib.core import Sub, need, same
from vlib.props.c17 import convert

RULE = "a document with a list of at least two items and a nested list, or two lists following each other"
OL = {"decimal": "decimal", "lowerLetter": "lower-alpha", "lowerRoman": "lower-roman", "upperLetter": "upper-alpha", "upperRoman": "upper-roman",
      "decimalZero": "decimal-leading-zero", None: "decimal"}


def shape(t):
    """Blocks of each cell, lists in full."""
    def lst(x):
        return [x[1], [[docx.text(r), [lst(s) for s in subs]] for r, subs in x[3]]]

    rows = []
    for row in t["rows"]:
        cells = []
        for c in row:
            cells.append([docx.text(b[1]) if b[0] == "p" else shape(b[1]) if b[0] == "t" else {"list": lst(b)} for b in c["b"]])
        rows.append(cells)
    return rows


def lists(t):
    def walk(b):
        yield b
        for _, subs in b[3]:
            for s in subs:
                yield from walk(s)

    for row in t["rows"]:
        for c in row:
            for b in c["b"]:
                if b[0] == "t":
                    yield from lists(b[1])
                elif b[0] == "l":
                    yield from walk(b)


def run(case):
    o, got, want, _ = convert(case)
    same([shape(t) for t in got], [shape(t) for t in want], "paragraphs and lists of the tables")
    labels = set()
    ab = {a: lv for a, lv in case["nums"]["abs"]}
    for t, w in zip(got, want):
        for g, x in zip(lists(t), lists(w)):
            aid, lvl = x[2]
            style, depth, chain = g[2]
            fmt, txt = ab[aid][lvl]
            labels |= {x[1], f"level {lvl}"}
            if depth != lvl:
                labels.add("skipped level")
            if len(set(chain)) > 1:
                labels.add("mixed kinds")
            if x[1] == "ul":
                need(style in ("disc", "circle", "square"), f"bullets at level {lvl} of list {aid} have the style {style}")
            elif fmt in OL:
                same(style, OL[fmt], f"style of the numbers at level {lvl} of list {aid}")
    if len(set(a for _, a in case["nums"]["map"])) < len(case["nums"]["map"]):
        labels.add("list with several numbers")
    for t in want:
        for row in t["rows"]:
            for c in row:
                ls = [b for b in c["b"] if b[0] == "l"]
                if len(ls) > 1:
                    labels |= {"nontrivial", "several lists"}
                for b in ls:
                    if len(b[3]) > 1 and any(subs for _, subs in b[3]):
                        labels |= {"nontrivial", "nested lists"}
    return labels


listy = dstrat.Opt(rows=2, cols=2, blocks=(2, 14), listy=11, depth=1, text=dstrat.words, runs=2, odd=False)
mixed = dstrat.Opt(rows=2, cols=2, blocks=(0, 7), listy=8, depth=2, text=dstrat.words, runs=3)
SUBS = [
    Sub("lists", dstrat.document(listy, nums=True, hi=1), run, 1200),
    Sub("mixed", dstrat.document(mixed, nums=True), run, 1200),
]
