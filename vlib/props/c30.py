import json
from collections import Counter

from hypothesis import strategies as st
from lxml import etree

from vlib import page, strat, sut, web
from vlib.core import Sub, judging, need, same
from vlib.props import c22, c25

RULE = "a report with lint entries of at least two codes, and at least one filter switched while looking at it"
LABELS = {"Row:", "Linting error:", "(", ")", ":"}


def js(v):
    """The text a value is shown as."""
    if v is None:
        return ""
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, list):
        return ",".join(js(x) for x in v)
    if isinstance(v, dict):
        return "[object Object]"
    return str(v)


def pieces(texts):
    return [t for t in map(page.norm, texts) if t and t not in LABELS]


def code_rows(view):
    """[(cells, classes, path)] of the summary"""
    out = []
    for e, p in page.seen(view, "tr"):
        cells = [page.norm(" ".join(page.texts(c))) for c in e[3] if isinstance(c, list) and c[0] == "td"]
        if len(cells) == 3:
            out.append((cells, page.classes(e), p))
    return out


def is_card(e):
    return "card" in page.classes(e)


def look(view, want, sel, tab, tables, plain):
    """Does the page show what it should?"""
    lint = want["meta"]["lint"]
    tx = page.texts(view)
    for k in ("specification", "revision"):
        need(page.norm(want["meta"][k]) in tx or not page.norm(want["meta"][k]), f"the {k} is not shown")
    rows = code_rows(view)
    arts = [a for a, _ in page.seen(view, "article")]
    labels = set()
    if tab == "summary":
        need(not arts, "figures are shown along with the summary")
        counts = {}
        for d in lint:
            counts.setdefault(d["code"], [d["code"], page.norm(d["msg"]), 0])[2] += 1
        codes = [r for r in rows if r[0][0]]
        same(sorted(r[0] for r in codes), sorted([c, m, str(n)] for c, m, n in counts.values()), "lint entries by code")
        n = [int(r[0][2]) for r in codes]
        same(n, sorted(n, reverse=True), "order of the codes")
        total = [r[0][2] for r in rows if not r[0][0]]
        same(total, [str(len(lint))], "total of lint entries")
        marked = sorted(r[0][0] for r in codes if plain is not None and r[1] != plain)
        same(marked, sorted(sel), "codes marked as filters")
    else:
        need(not rows or arts, "the summary is shown along with the figures")
        byfig = {}
        for d in lint:
            if not sel or d["code"] in sel:
                byfig.setdefault(d["fig"], []).append(d)
        got = {}
        for a in arts:
            head = next(iter(page.texts(a)), "")
            got.setdefault(head, []).append(a)
        same(sorted((h, len(a)) for h, a in got.items()), sorted(Counter(page.norm("Figure " + f) for f in byfig).items()), "figures shown" + (f" with filters {sorted(sel)}" if sel else ""))
        for f, ds in byfig.items():
            a = got[page.norm("Figure " + f)].pop(0)  # ids may differ in white space only
            cards = [c for c, _ in page.seen(a, None, is_card)]
            exp = []
            for d in ds:
                e = pieces([js(d.get("row")), d["msg"], d["code"]])
                exp.append(e + sorted(pieces(x for k, v in d["context"].items() for x in (k, js(v)))))
            shown = [pieces(page.texts(c)) for c in cards]
            need(len(shown) == len(exp), f"{len(shown)} lint entries are shown for figure {f}, expected {len(exp)}")
            for i, (g, e) in enumerate(zip(shown, exp)):
                # the context is in no particular order
                n = len(pieces([js(ds[i].get("row")), "m", "c"]))
                same(g[:n] + sorted(g[n:]), e, f"lint entry {i} shown for figure {f}")
            fig = f.split("_")[0]
            rest = page.texts(a, is_card)[1:]
            if fig in tables:
                same("".join("".join(rest).split()), "".join("".join(tables[fig].itertext()).split()), f"table shown for figure {f}")
                labels.add("table shown")
            else:
                need(not page.seen(a, "table", None) and rest in ([], [page.norm(fig)], [page.norm(f)]), f"{rest} is shown for figure {f}, which has no table of its own")
        if sel:
            labels.add("filtered figures")
            if set(sel) < {d["code"] for d in lint}:
                labels.add("proper filter")
    return labels


def run(case):
    suf, blob = c22.data(case["doc"])
    with sut.Dir() as d:
        src = d / ("doc" + suf)
        src.write_bytes(blob)
        (d / "out").mkdir()
        o = sut.process(src, d / "out")
        need(o.exc is None and o.raw is not None, f"processing a document failed: {o.exc!r}")
        want = json.loads(o.raw)
        with judging("HTML"):
            root = etree.fromstring(sut.read(d / "out" / "doc.html") if suf == ".docx" else blob)
            tables = {}
            for t in root.findall("./body/table"):
                if t.get("id"):
                    tables.setdefault(t.get("id"), t)
    labels = {suf}

    async def go(s):
        r = web.upload("doc" + suf, blob)
        await s.run([r])
        url = web.completion(r)
        need(url is not None, "no report was issued for a document that can be processed")
        b = await page.load(s, url + ("?bundle=1" if case["bundle"] else ""))
        sel, tab = set(), "summary"
        with judging("report page"):
            rows = [r for r in code_rows(b.view) if r[0][0]]
            plain = rows[0][1] if rows else None
            labels.update(look(b.view, want, sel, tab, tables, plain))
        for what, n in case["acts"]:
            with judging("report page"):
                if what == "code":
                    rows = [r for r in code_rows(b.view) if r[0][0]]
                    if tab != "summary" or not rows:
                        continue
                    cells, _, path = rows[n % len(rows)]
                    sel ^= {cells[0]}
                    labels.add("filter switched" if want["meta"]["lint"] else "no lint")
                elif what == "clear":
                    path = [p for e, p in page.seen(b.view, "button") if "Clear" in " ".join(page.texts(e))]
                    if tab != "summary":
                        continue
                    need(len(path) == 1, "there is no way to clear the filters")
                    path = path[0]
                    if sel:
                        labels.add("filters cleared")
                    sel = set()
                else:
                    path = [p for e, p in page.seen(b.view, "a") if page.texts(e) == [what.title()]]
                    need(len(path) == 1, f"there is no tab {what}")
                    path, tab = path[0], what
            b.act("click", path)
            with judging("report page"):
                labels.update(look(b.view, want, sel, tab, tables, plain))

    web.serve(go)
    if len({d["code"] for d in want["meta"]["lint"]}) > 1 and "filter switched" in labels and labels & {"filtered figures"}:
        labels.add("nontrivial")
    labels.add("self-contained" if case["bundle"] else "served")
    return labels


@st.composite
def acts(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        out += [["summary", 0]] * draw(st.sampled_from([0, 1, 1, 1, 2]))
        if draw(strat.chance(1, 4)):
            out.append(["clear", 0])
        out += [["code", draw(st.integers(0, 7))] for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3])))]
        out += [["figures", 0]] * draw(st.sampled_from([0, 1, 1, 1, 1]))
    return out


@st.composite
def crowded(draw, docs):
    """Many entries of few codes."""
    doc = draw(docs)
    if draw(st.booleans()):
        i = str(draw(st.integers(2000, 2009)))
        rows = []
        for k in range(draw(st.integers(2, 25))):
            kind = draw(st.integers(0, 4))
            rows.append({"r": "f", "key": {"t": f"{k:x}h" if kind else draw(st.sampled_from(["0h", "1h"]))},
                         "nm": {"n": "Same" if kind < 3 else f"Name {k}", "a": None}, "br": None})
        figs = doc["doc"]["figs"]
        figs.insert(draw(st.integers(0, len(figs))), {"t": "values", "cols": [["key", "Value"], ["desc", "Description"]], "rows": rows,
                                                     "id": i, "cap": f"Figure {i}: Crowd", "kind": "inner", "wrap": False})
    if draw(strat.chance(1, 4)):
        # offsets which are blank or no offsets
        keys = draw(st.lists(st.sampled_from(["", "", "x", "-", " ", "1:2:3"]), min_size=1, max_size=3))
        i = str(draw(st.integers(2010, 2019)))
        doc["doc"]["figs"].insert(0, {"t": "bytes", "cols": [["key", "Bytes"], ["desc", "Description"]], "id": i, "cap": f"Figure {i}: Blank", "kind": "inner",
                                      "wrap": False, "rows": [{"r": "f", "key": {"t": k}, "nm": {"n": f"Odd {n}", "a": f"O{n}"}, "br": None} for n, k in enumerate(keys)]})
    return doc


o = strat.Opt(rows=(1, 7), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, more=False, name=strat.struct_name(), vname=strat.value_name())
docs = st.one_of(c25.documents(o, 1, 7), c25.documents(o, 1, 7), c25.documents())
cases = st.fixed_dictionaries({"doc": crowded(docs), "bundle": st.booleans(), "acts": acts()})
SUBS = [Sub("reports", cases, run, 800)]
