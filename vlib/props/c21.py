import re

from hypothesis import strategies as st

from vlib import docx, dstrat, model, strat, sut
from vlib.core import Sub, judging, need, same

RULE = "a document giving at least one entity (models), or with a title, revision or file name holding other characters than letters, digits and spaces (names)"


def runs(text, cut):
    """text as runs, cut somewhere"""
    i = cut % (len(text) + 1)
    return [{"k": "r", "s": [["t", t]], "f": {"b": ""} if cut % 3 == 0 else None} for t in (text[:i], text[i:]) if t]


class Conv:
    """A role-level document as docx."""

    def __init__(self, cuts):
        self.cuts, self.n = cuts, 0

    def cut(self):
        self.n += 1
        return self.cuts[self.n % len(self.cuts)]

    def blocks(self, bs):
        out = []
        for b in bs:
            if isinstance(b, str):
                out.append(["p", runs(b, self.cut()), None])
            elif isinstance(b, dict):  # (nothing readable in raw HTML)
                out.append(["t", self.table(b, True)])
        return out

    def table(self, fig, nested=False):
        rows = []
        n = max(1, len(fig["cols"]))
        if not nested and fig.get("cap") is not None:
            rows.append([({"b": fig["cap"] if isinstance(fig["cap"], list) else [fig["cap"]], "cs": n}, None)])
        if fig["cols"]:
            rows.append([({"b": [h]}, "D9D9D9") for _, h in fig["cols"]])
        for cells in model.grid(fig):
            rows.append([(c, "BFBFBF" if c.get("tag") == "th" else None) for c in cells])
        cells = []
        for y, row in enumerate(rows):
            x = 0
            for c, shd in row:
                w = c.get("cs") or 1
                cells.append({"x": x, "y": y, "w": w, "h": 1, "shd": shd, "b": self.blocks(c["b"])})
                x += w
        t = {"rows": len(rows), "cells": cells}
        if not nested and fig.get("wrap"):
            t = {"rows": 1, "cells": [{"x": 0, "y": 0, "w": 1, "h": 1, "b": [["t", t]]}]}
        return t


def blob(case):
    doc = case["doc"]
    c = Conv(case["cuts"])
    head = case["head"].format(t=doc["spec"].replace(",", ";"), r=doc["rev"])
    i, j = sorted(k % (len(head) + 1) for k in case["cuts"][:2])
    parts = [[head[:i], head[i:j]], [head[j:]]] if case["cuts"][0] % 2 else [[head[:i], head[i:j], head[j:]]]
    d = {"head": parts, "styles": [], "nums": None, "body": [["t", c.table(f)] for f in doc["figs"]]}
    # a newline reads as a space
    return docx.build(d), head.replace("\n", " ").split(",")[0].strip(), doc["rev"]


def run(case):
    data, title, rev = blob(case)
    name = case["name"]
    with sut.Dir() as d:
        (d / "in").mkdir()
        (d / "out").mkdir()
        (d / "again").mkdir()
        src = d / "in" / f"{name}.docx"
        src.write_bytes(data)
        o = sut.process(src, d / "out", progress=case["progress"])
        need(o.exc is None, f"processing failed: {type(o.exc).__name__}: {str(o.exc)[:300]}")
        same(sorted(p.name for p in (d / "out").iterdir()), sorted(name + s for s in (".html", ".css", ".json")), "files written")
        same([p.name for p in (d / "in").iterdir()], [src.name], "files beside the input")
        need(src.read_bytes() == data, "the input was modified")
        if o.result is not None:
            need(str(o.result) == str(d / "out" / f"{name}.json"), f"path reported is {o.result}")
        again = sut.process(d / "out" / f"{name}.html", d / "again")
        need(again.exc is None, f"processing the HTML file failed: {again.exc!r}")
        need(again.raw == o.raw, "the HTML file gives another model than the docx")
        html, css = (sut.read(d / "out" / f"{name}{s}") for s in (".html", ".css"))
    with judging("HTML"):
        r = docx.Read(html, css)
        same(r.root.findtext("./head/title"), name, "title of the HTML file")
        same([e.get("href") for e in r.root.iter("link")], [f"{name}.css"], "style sheet of the HTML file")
    with judging("model"):
        same(o.model["meta"]["specification"], title.lower(), "specification")
        same(o.model["meta"]["revision"], rev.lower(), "revision")
        exp = model.expect(case["doc"])
        same([model.canon_entity(e) for e in o.entities], [model.canon_entity(e) for e in exp.entities], "entities")
        if case["known"] is None:
            same(model.lint_bag(o.lint, drop=dup), model.lint_bag(exp.lint, drop=dup), "lint")
    labels = set()
    if o.entities:
        labels.add("entities")
    if re.search(r"[^\w ]", name + title):
        labels.add("odd names")
    if "odd names" in labels if not case["doc"]["figs"] else o.entities:
        labels.add("nontrivial")
    return labels


from vlib.judge import obsolete_dup as dup  # noqa: E402

o = strat.Opt(rows=(1, 5), nested=2, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, more=False,
              name=strat.struct_name(), vname=strat.value_name())
NAMES = ["doc", "a b", "x.y", "NVM Express 2.0c Ratified", "a&b", "q'uote", 'd"q', "<x>", "é", "ü ®", "a.html", "b.docx", "c.json", "x#1", "p%20q", "a;b", "~t", "-x", " lead", "{n}", "$v",
         "v1.", "語", "a,b", "😀", "x\u00a0y", "a\\b", "&amp;", "?q=1", "*"]
names = st.one_of(st.sampled_from(NAMES), st.text("abcXY019 ._-&<>'\"é®;#%(){}$@!+=,~^`", min_size=1, max_size=12).filter(lambda n: n.strip(".") != "" and not n.startswith(".")))
HEADS = ["{t}, Revision {r}", "{t}, revision {r}", "{t}, Revision {r} ", " {t} , Revision  {r} , Ratified", "{t}, Revision {r} (draft)", "{t}, x, y, Revision {r}", "{t}, NVMe Revision {r}", "{t},Revision {r}", "{t},x,y, Revision {r}", "{t} ,Revision {r} x", "{t},\nRevision {r}", "{t}, x,\n  Revision\n{r}\n(y)"]


revs = st.one_of(strat.spec_rev, strat.spec_rev, st.sampled_from(["1.0,", "1,0", "2.0;", "1;0c", "(1.0)", "1.0:", "1.0.", "v1", "1/2", "Ⅱ", "1.0-é,x"]))


@st.composite
def cases(draw, figs):
    k = draw(st.integers(0, 9))
    known = None
    if k < 5:
        spec, rev = draw(strat.spec_title), draw(revs)
    else:
        spec, rev = draw(dstrat.odd_text).replace("\t", "").replace("\x85", ""), draw(revs)
        spec = ("S " + spec + " z")
    spec = spec.strip()
    if not spec.replace(",", ";").strip() or "evision" in spec:
        spec = "Generic Specification"
    return {"doc": {"spec": spec, "rev": rev, "figs": draw(figs)}, "head": draw(st.sampled_from(HEADS)), "name": draw(names),
            "cuts": draw(st.lists(st.integers(0, 60), min_size=2, max_size=8)), "progress": draw(st.booleans()), "known": known}


SUBS = [
    Sub("models", cases(strat.mixed_figs(o, lo=1, hi=3, kinds=("ok", "ok", "other", "nocap", "noid"))), run, 1000),
    Sub("names", cases(st.just([])), run, 1600),
]
