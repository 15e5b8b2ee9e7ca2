from hypothesis import strategies as st

from vlib import docx, dstrat, sut
from vlib.core import Sub, judging, need, same

RULE = "a document with a non-empty paragraph which holds an XML-special or non-ASCII character, several runs, a link, a field, a tab or a line break"


def convert(doc):
    """(outcome, tables read back, tables expected, Read)"""
    o, html, css, files = sut.docx_process(docx.build(doc))
    need(o.exc is None, f"processing failed: {type(o.exc).__name__}: {str(o.exc)[:300]}")
    with judging("HTML"):
        r = docx.Read(html, css)
        got = r.tables()
    return o, got, docx.Expect(doc).tables(), r


def paras(doc):
    def walk(b):
        if b[0] == "p":
            yield b
        else:
            for c in b[1]["cells"]:
                for x in c["b"]:
                    yield from walk(x)

    for b in doc["body"]:
        if b[0] != "p":
            yield from walk(b)


def labels_of(doc):
    labels = set()
    for p in paras(doc):
        its = [i for i in p[1] if i["k"] != "noise"]
        txt = "".join(s[1] for i in its for s in i["s"] if s[0] == "t")
        if not txt:
            labels.add("empty paragraph")
            continue
        kinds = {i["k"] for i in its} - {"r"}
        brk = {s[0] for i in its for s in i["s"]} - {"t"}
        found = kinds | brk
        if any(c in txt for c in "<>&\"'"):
            found.add("special")
        if any(ord(c) > 127 for c in txt):
            found.add("non-ascii")
        if len(its) > 1:
            found.add("several runs")
        if found:
            labels.add("nontrivial")
        labels |= found
    return labels


def run(case):
    o, got, want, _ = convert(case)
    same([docx.paragraphs(t) for t in got], [docx.paragraphs(t) for t in want], "texts of the tables")
    return labels_of(case)


texty = dstrat.Opt(rows=2, cols=3, blocks=(0, 3), runs=6)
lists = dstrat.Opt(rows=2, cols=2, blocks=(1, 4), listy=5)
SUBS = [
    Sub("texts", dstrat.document(texty), run, 3000),
    Sub("lists", dstrat.document(lists, nums=True), run, 800),
    Sub("grids", dstrat.document(dstrat.Opt(rows=4, cols=4, merge=True, blocks=(0, 1), depth=2), hi=3), run, 600),
]
