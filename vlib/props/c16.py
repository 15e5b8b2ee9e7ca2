from hypothesis import strategies as st

from vlib import render, strat, sut
from vlib.core import Sub, Violation, judging, same
from vlib.judge import figs_of

RULE = "a document giving entities, rendered in two ways which differ in text or structure"


def run(case):
    a_html, b_html = render.html(case["doc"], case["a"]), render.html(case["doc"], case["b"])
    a, b = sut.model_ok(a_html), sut.model_ok(b_html)
    with judging("model"):
        same(b.entities, a.entities, "entities of another rendering")
        same(b.lint, a.lint, "lint of another rendering")
    labels = {f"entities {min(len(a.entities), 4)}"}
    if a.entities and a_html != b_html:
        labels.add("nontrivial")
    for k in ("ws", "split", "cls", "capth"):
        if case["a"][k] != case["b"][k]:
            labels.add("other " + k)
    if case["b"]["noise"]:
        labels.add("noise")
    return labels | {"depth %d" % d for _, d in figs_of(case["doc"])}


def run_example(case):
    """A specification, its elements decorated."""
    import random

    from lxml import etree

    rnd = random.Random(case["seed"])
    src = sut.examples()[case["example"]]
    tree = etree.fromstring(src.read_bytes())
    share = case["share"]
    kinds = case["kinds"]
    for el in list(tree.find("body").iter("table", "tr", "td", "th", "p", "span")):
        if rnd.random() > share:
            continue
        k = rnd.choice(kinds)
        if k == "attr":
            el.set("id", f"n{rnd.randrange(10**6)}")
        elif k == "class":
            el.set("class", "a b")
        elif k == "noclass":
            el.attrib.pop("class", None)
        elif k == "comment" and el.tag != "span":
            el.insert(rnd.randrange(len(el) + 1) if len(el) else 0, etree.Comment(" Figure 9: x "))
        elif k == "span" and el.tag == "span" and not len(el) and el.text and len(el.text) > 1:
            i = rnd.randrange(1, len(el.text))
            new = etree.Element("span")
            new.text, el.text = el.text[i:], el.text[:i]
            new.tail, el.tail = el.tail, None
            el.addnext(new)
        elif k == "space" and el.tag in ("table", "tr"):
            if len(el) and not (el.text or "").strip():
                el.text = rnd.choice(["", "\n", " \t ", None])
    outs = []
    with sut.Dir() as d:
        for n, data in (("a", src.read_bytes()), ("b", etree.tostring(tree, encoding="utf-8"))):
            (d / f"{n}.html").write_bytes(data)
            (d / n).mkdir()
            o = sut.process(d / f"{n}.html", d / n)
            if o.exc is not None:
                raise Violation(f"{src.name} ({n}): processing failed: {o.exc!r}")
            outs.append(o)
    a, b = outs
    same(b.entities, a.entities, f"entities of {src.name}, decorated")
    same(b.lint, a.lint, f"lint of {src.name}, decorated")
    return {"nontrivial"} | set(kinds)


o = strat.Opt(rows=(1, 5), nested=2, more=False, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=2, shuffle=True,
              free_desc=True, name=strat.struct_name(), vname=strat.value_name())


def single(doc):
    for f, _ in figs_of(doc):
        if isinstance(f.get("cap"), list):
            f["cap"] = f["cap"][0]
        for r in f.get("rows", []):
            if r["r"] != "f":
                r.pop("more", None)
    return doc




@st.composite
def broken_lines(draw, docs):
    """line breaks and the like within texts, which stay where they are"""
    doc = draw(docs)
    for f, _ in figs_of(doc):
        for r in f.get("rows", []):
            if r["r"] == "f" and f["t"] != "other" and draw(strat.chance(1, 6)):
                gap = draw(st.sampled_from(strat.GAPS))
                if r.get("br"):
                    r["br"] = r["br"].replace(" ", gap)
                if draw(st.booleans()):
                    r["nm"]["n"] = r["nm"]["n"].replace(" ", gap)
                if r.get("at"):
                    r["at"]["n"] = r["at"]["n"].replace(" ", gap)
    return doc


docs = broken_lines(st.one_of(strat.document(o, 1, 3), strat.mixed_document(o, lo=1, hi=4)).map(single))
noise = st.one_of(st.just(0), st.integers(1, 2**16))
style = st.builds(lambda s, n: dict(s, noise=n), strat.styles, noise)

SUBS = [
    Sub("renderings", st.fixed_dictionaries({"doc": docs, "a": style, "b": style}), run, 2400),
    Sub("examples", st.fixed_dictionaries({
        "example": st.integers(0, 7), "seed": st.integers(0, 10**6), "share": st.sampled_from([0.02, 0.2, 0.7]),
        "kinds": st.lists(st.sampled_from(["attr", "class", "noclass", "comment", "span", "space"]), min_size=1, max_size=6, unique=True)}),
        run_example, 24, 400),
]
