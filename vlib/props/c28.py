import re

from hypothesis import strategies as st

from vlib import render, schema, soup, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.props.c15 import numberless

RULE = ("a document with at least one captioned table (soup), or one whose damaged figure is among at least one other (damage)")
GLUED = {"24", "65"}


def captions(html):
    """What the captioned tables of a document are, judged from the document alone."""
    from lxml import etree

    root = etree.fromstring(html.encode())
    out = []
    for t in root.findall("./body/table"):
        first = t.find("./tr")
        cell = first.find("./td") if first is not None else None
        kids = [c for c in cell if isinstance(c.tag, str)] if cell is not None else []
        if kids and kids[0].tag == "table":
            t = kids[0]
            first = t.find("./tr")
        if first is None:
            continue
        title = "".join(first.itertext(tag=etree.Element) if False else first.xpath("string()")).strip()
        if "Figure" not in title:
            continue
        m = re.match(r"Figure\s+([^\s^:]+)", title)
        out.append((m.group(1) if m else None, title))
    return out


def accounted(html, o):
    caps = captions(html)
    with judging("model"):
        ids = [c[0] for c in caps if c[0] is not None]
        for fid in dict.fromkeys(ids):
            titles = [c[1] for c in caps if c[0] == fid]
            ents = [e for e in o.entities if e["fig_id"] == fid and "parent_fig_id" not in e]
            skipped = [d for d in o.lint if d["code"] == "T1007" and d["fig"] == fid]
            failed = [d for d in o.lint if d["code"] == "T1000" and (d["fig"] == fid or d["fig"].startswith(fid + "_"))]
            n = len(ents) + len(skipped) + len(failed)
            if fid in GLUED:
                need(n >= len(titles), f"figure {fid} is not accounted for")
                continue
            need(n == len(titles), f"figure {fid}: {len(titles)} tables, but {len(ents)} entities, {len(skipped)} reports as not recognised, {len(failed)} as failed")
            for e in ents:
                need(e["title"] in titles, "title of figure %s is %r, captions are %r", fid, e["title"], titles)
        top = [e["fig_id"] for e in o.entities if "parent_fig_id" not in e and e["fig_id"] not in GLUED]
        it = iter(ids)
        need(all(any(x == i for i in it) for x in top), f"order of entities is {top}, of figures {ids}")
        same([d["context"].get("title") for d in o.lint if d["code"] == "T1008"], [t for i, t in caps if i is None], "figures without id")
    return caps


def sound(o):
    schema.conforms(o.model, empty_values=True)
    schema.lint_ok(o.model)
    schema.raw_ok(o.raw, o.model)


def run_soup(case):
    html = soup.wrap(case["spec"], case["rev"], case["tables"])
    o = sut.model_ok(html)
    sound(o)
    caps = accounted(html, o)
    labels = {"lint " + d["code"] for d in o.lint} | {"entity " + e["type"] for e in o.entities}
    if any("parent_fig_id" in e for e in o.entities):
        labels.add("nested entity")
    if caps:
        labels.add("nontrivial")
    if case["spec"] in strat.TITLES[1:]:
        labels.add("corrected title")
    return labels


def check_damage(pre, whole, post, what):
    with judging("model"):
        for k in ("entities", "lint"):
            a, b, w = (numberless(getattr(x, k)) for x in (pre, post, whole))
            same(w[: len(a)], a, f"{k} before the damaged figure{what}")
            same(w[len(w) - len(b):], b, f"{k} after the damaged figure{what}")
            need(len(w) >= len(a) + len(b), f"{k} of figures before or after the damaged one are missing{what}")


def run_damage(case):
    from lxml import etree

    doc, i = case["doc"], case["victim"] % len(case["doc"]["figs"])
    root = etree.fromstring(render.html(doc, case["style"]).encode())
    html0 = etree.tostring(root, encoding="unicode")
    tabs = root.findall("./body/table")
    n = soup.damage(tabs[i], case["muts"])
    html = etree.tostring(root, encoding="unicode")
    o = sut.model_ok(html)
    sound(o)
    accounted(html, o)
    parts = [sut.model_ok(render.html(dict(doc, figs=f), case["style"])) for f in (doc["figs"][:i], doc["figs"][i + 1:])]
    check_damage(parts[0], o, parts[1], "")
    labels = {f"mutations {min(n, 5)}"}
    if len(tabs) > 1 and html != html0:
        labels.add("nontrivial")
    if any(d["code"] == "T1000" for d in o.lint):
        labels.add("failing")
    return labels


def run_example(case):
    from lxml import etree

    src = sut.examples()[case["example"]]
    outs = []
    with sut.Dir() as d:
        for k in ("pre", "whole", "post"):
            tree = etree.fromstring(src.read_bytes())
            tabs = tree.findall("./body/table")
            i = case["victim"] % len(tabs)
            # a window around the victim keeps this affordable
            lo, hi = max(0, i - 12), i + 13
            for j, t in enumerate(tabs):
                if j < lo or j >= hi or k == "pre" and j >= i or k == "post" and j <= i:
                    t.getparent().remove(t)
            if k == "whole":
                soup.damage(tabs[i], case["muts"])
            html = etree.tostring(tree, encoding="unicode")
            o = sut.model_ok(html)
            if k == "whole":
                sound(o)
                accounted(html, o)
            outs.append(o)
    check_damage(*outs, f" of {src.name}")
    return {"nontrivial", "failing" if any(x["code"] == "T1000" for x in outs[1].lint) else "extracted"}


def build_soup(spec, rev, blobs, ids):
    tables = []
    for fid, b in zip(ids, blobs):
        s = soup.Soup(soup.Bytes(b))
        tables.append(s.figure(fid, 3))
    return {"spec": spec, "rev": rev, "tables": tables}


title = st.one_of(st.tuples(st.integers(0, 4), st.just(0)).map(lambda p: (strat.TITLES[p[0]], strat.REVS[p[0]])), st.tuples(strat.spec_title, strat.spec_rev))
soups = st.builds(lambda t, figs: build_soup(t[0], t[1], [b for _, b in figs], [i for i, _ in figs]), title,
                  st.lists(st.tuples(st.sampled_from(soup.IDS), st.one_of(st.binary(min_size=150, max_size=250), st.binary(max_size=60))), min_size=1, max_size=4))
muts = st.lists(st.tuples(st.integers(0, 10), st.integers(0, 400), st.integers(0, 200)), min_size=1, max_size=6)
opt = strat.Opt(rows=(1, 4), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, name=strat.struct_name(), vname=strat.value_name())


@st.composite
def damages(draw):
    spec, rev = draw(title)
    figs = draw(strat.mixed_figs(opt, lo=1, hi=4, kinds=("ok", "ok", "other", "nocap", "noid", "broken"), numeric=True))
    return {"doc": {"spec": spec, "rev": rev, "figs": figs}, "victim": draw(st.integers(0, 3)), "muts": draw(muts), "style": draw(strat.styles)}


SUBS = [
    Sub("soup", soups, run_soup, 12000),
    Sub("damage", damages(), run_damage, 1000),
    Sub("examples", st.fixed_dictionaries({"example": st.integers(0, 7), "victim": st.integers(0, 500), "muts": muts}), run_example, 160, 4000),
]
