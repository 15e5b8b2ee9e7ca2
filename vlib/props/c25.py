import copy
import hashlib
import json
import re

from hypothesis import strategies as st
from lxml import etree

from vlib import docx, model, strat, sut, web
from vlib.core import Sub, judging, need, same
from vlib.props import c22, c23

RULE = "a processed document holding script or markup fragments, or with lint entries (streams); a request other than a plain upload (refused)"
NASTY = ["</script><script>alert(1)</script>", "</SCRIPT >", "<!--<script>", "-->", "]]>", "\u2028", "'\"", "&lt;/script&gt;", "{{ 7*7 }}", "{% raw %}", "\\u003c/script\\u003e",
         "</title>", "<img src=x onerror=alert(1)>", "`${report}`", "\\", "\\\"", "é🙂", "&", "</", "<", "*/", "//", "%3C/script%3E", "\x7f", "\ufeff", "{#", "</style>", "\ud7ff"]
# XPath fragments, for ids (which end at white space or a colon)
IDS = ["1]/@id|x[1", "1]|//x[1", "$x", "1'", '"', "@id", "id", ".", "*", "last()", "1-0", "007", "1.0", "1)", "count(//table)", "//@id", "true()", "1]/text()|x[1", "-1", "1e0", "1|2", "1,2",
       "text()]|//@id[.", "1]/@id[1", "position()", "2", "3", "constructor", "toString", "valueOf"]
baselines = {}


def page_tags(s, data):
    return web.Page(data).tags


async def baseline(s, bundle):
    """Tags of the report on a plain document."""
    if bundle not in baselines:
        doc = {"kind": "html", "doc": {"spec": "Plain Specification", "rev": "1.0", "figs": []}}
        r = web.upload("plain.html", c22.data(doc)[1])
        await s.run([r])
        url = web.completion(r)
        need(url is not None, "no report was issued for a document that can be processed")
        r = await s.get(url + ("?bundle=1" if bundle else ""))
        need(r.status == 200, f"report page: status is {r.status}")
        baselines[bundle] = web.Page(r.content).tags
    return baselines[bundle]


def stream_ok(evs, docx_input, tables, entities):
    need(evs and evs[-1].get("type") == "report-completed", "the stream does not end with a completion event")
    same([e["type"] for e in evs[:-1]], ["progress-update"] * (len(evs) - 1), "events before the completion")
    phases = [e["phase"] for e in evs[:-1]]
    same(sorted(phases, key=["html", "json"].index), phases, "order of the phases")
    for ph, n in (("html", len(tables) if docx_input else 0), ("json", entities)):
        ups = [e for e in evs[:-1] if e["phase"] == ph]
        same([e["fig_ndx"] for e in ups], list(range(n)), f"indices of phase {ph}")
        need(len({e["num_figs"] for e in ups}) < 2, f"the total of phase {ph} changes")


def text(e):
    return re.sub(r"\s+", " ", "".join(e.itertext())).strip()


def run_streams(case):
    docs = []
    for d in case["docs"]:
        suf, blob = c22.data(d)
        if d.get("convert"):
            o, html, _, _ = sut.docx_process(blob)
            need(o.exc is None and html is not None, f"processing a document failed: {o.exc!r}")
            suf, blob = ".html", html
        with sut.Dir() as dd:
            src = dd / ("doc" + suf)
            src.write_bytes(blob)
            (dd / "out").mkdir()
            o = sut.process(src, dd / "out")
            need(o.exc is None and o.raw is not None, f"processing a document failed: {o.exc!r}")
            with judging("HTML"):
                root = etree.fromstring(sut.read(dd / "out" / "doc.html") if suf == ".docx" else blob)
                tables = root.findall("./body/table")
        docs.append((suf, blob, json.loads(o.raw), tables))
    labels = set()

    async def go(s):
        for bundle in (False, True):
            await baseline(s, bundle)
        reqs = [web.upload("doc" + suf, blob, accept=case["accept"]) for suf, blob, _, _ in docs]
        await s.run(reqs, case["turns"])
        for r, (suf, blob, want, tables) in zip(reqs, docs):
            need(r.status == 200 and r.complete and r.exc is None, f"uploading failed: status {r.status}, {r.exc!r}")
            need(r.headers.get("content-type", "").split(";")[0] == "text/event-stream", f"the answer is of type {r.headers.get('content-type')}")
            with judging("event stream"):
                evs = web.events(r)
                stream_ok(evs, suf == ".docx", tables, len(want["entities"]))
                url = evs[-1]["url"]
            figs = sorted({d["fig"].split("_")[0] for d in want["meta"]["lint"]})
            for bundle in (False, True):
                what = "self-contained report page" if bundle else "report page"
                g = await s.get(url + ("?bundle=1" if bundle else ""))
                need(g.status == 200 and g.complete, f"{what}: status is {g.status}")
                with judging(what):
                    page = web.Page(g.content)
                    vals = page.values()
                    held = [t for t, v in vals if v == want]
                    need(held, f"{what}: no script holds the model")
                    for t, v in vals:
                        low = t.lower()
                        need("</script" not in low and not ("<!--" in low and "<script" in low), f"{what}: document content can end the script")
                    same(page.tags, baselines[bundle], f"{what}: tags, compared to those of a plain document")
                    own = [x for x in page.links if x[2] is not None and not re.match(r"https?://", x[2])]
                    if bundle:
                        need(not own, f"{what}: refers to {own[:1]}")
                    shown = [v for _, v in vals if isinstance(v, dict) and v != want and any(isinstance(x, str) and x.startswith("<table") for x in v.values())]
                    byid = {}
                    for t in tables:
                        if t.get("id"):
                            byid.setdefault(t.get("id"), t)
                    for f in figs:
                        got = next((v[f] for v in shown if f in v), None)
                        ref = byid.get(f)
                        if ref is None:
                            need(got is None, f"{what}: shows a table for figure {f}, which has none")
                        else:
                            need(got is not None, f"{what}: lacks the table of figure {f}, which has lint entries")
                            same(text(etree.fromstring(got)), text(ref), f"{what}: table shown for figure {f}")
                            labels.add("figure shown")
    web.serve(go)
    for d, (suf, blob, want, _) in zip(case["docs"], docs):
        labels.add("converted" if d.get("convert") else suf)
        if want["meta"]["lint"]:
            labels.add("lint")
        if d.get("nasty"):
            labels.add("fragments")
    if labels & {"lint", "fragments"}:
        labels.add("nontrivial")
    return labels


def run_refused(case):
    k = case["kind"]
    good = {"kind": "html", "doc": {"spec": "Plain Specification", "rev": "1.0", "figs": []}}
    doc = case["doc"]
    suf, blob = c22.data(doc)
    name = case["name"] + suf
    form = [("content-type", "application/x-www-form-urlencoded"), ("accept", "text/event-stream")]
    bad = doc["kind"] in c22.WRONG
    r, refused = {
        "field": lambda: (web.upload(name, blob, field=case["other"]), True),
        "nofile": lambda: (web.upload(None, blob, extra=[("x", "y")] * case["n"]), True),
        "accept": lambda: (web.upload(name, blob, accept=case["accept"]), True),
        "form": lambda: (web.Request("POST", "/parse", form, b"document=" + blob[:50]), True),
        "empty": lambda: (web.Request("POST", "/parse", form[1:], b""), True),
        "noname": lambda: (web.upload("", blob), True),
        "json": lambda: (web.Request("POST", "/parse", [("content-type", "application/json"), form[1]], b'{"document": "x"}'), True),
        "get": lambda: (web.Request("GET", "/parse", [form[1]]), True),
        "extra": lambda: (web.upload(name, blob, extra=[("x", "y"), ("document", "z")][: case["n"]]), False),
        "plain": lambda: (web.upload(name, blob, accept=case["accepted"], enc=case["n"]), False),
    }[k]()

    async def go(s):
        await s.run([r])
        if refused:
            need(r.status is not None and 400 <= r.status < 500, f"the request is answered with status {r.status} ({r.exc!r})")
            need(b"report-completed" not in r.content, "a report was issued for a refused request")
        else:
            with judging("event stream"):
                evs = web.events(r) if r.status == 200 else []
            done = [e for e in evs if e.get("type") == "report-completed"]
            if bad:
                need(not done, "a report was issued for a document that cannot be processed")
            else:
                need(len(done) == 1, f"{len(done)} reports were issued (status {r.status}, {r.exc!r})")
        if refused or bad:
            h = hashlib.md5(blob).hexdigest()
            for kind in c23.KINDS:
                g = await s.get(c23.target(kind, h))
                need(g.status == 404, f"{kind} of a document that was not processed: status is {g.status}")
        # the service goes on working
        g = web.upload("plain.html", c22.data(good)[1])
        await s.run([g])
        need(web.completion(g) is not None, "after that, a proper upload is not answered with a report")
        g = await s.get("/")
        need(g.status == 200, f"after that, the start page has status {g.status}")

    web.serve(go)
    return {"request " + k, "document " + doc["kind"]} | ({"nontrivial"} if refused or bad or k == "extra" else set())


o = strat.Opt(rows=(1, 4), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, more=False)


@st.composite
def documents(draw, o=o, lo=0, hi=3):
    kind = draw(st.sampled_from(["html", "docx", "docx", "convert"]))
    d = {"kind": kind.replace("convert", "docx"), "doc": {"spec": draw(strat.spec_title), "rev": draw(strat.spec_rev)}}
    if kind == "convert":
        d["convert"] = True
    doc = d["doc"]
    doc["figs"] = draw(strat.mixed_figs(o, lo=lo, hi=hi, kinds=("ok", "other", "noid") + (("broken",) if kind == "html" else ()), numeric=draw(st.booleans())))
    nasty = st.sampled_from(NASTY)
    if draw(strat.chance(2, 3)):
        d["nasty"] = True
        if draw(st.booleans()):
            doc["spec"] = f"S {draw(nasty)} z"
        if draw(st.booleans()) and kind == "html":
            doc["rev"] = draw(nasty) + "1"
        for f in doc["figs"]:
            if isinstance(f.get("cap"), str) and draw(st.booleans()):
                f["cap"] += " " + draw(nasty)
            if f.get("kind") == "other" and draw(st.booleans()):
                f["cols"] = [[c, h + " " + draw(nasty)] for c, h in f["cols"]]
            for row in f.get("rows", []):
                if "br" in row and isinstance(row["br"], str) and draw(st.booleans()):
                    row["br"] = draw(nasty)
                if row.get("x") and draw(st.booleans()):
                    row["x"] = [draw(nasty) for _ in row["x"]]
    if draw(strat.chance(1, 3)):
        for i, f in enumerate(doc["figs"]):
            if f.get("kind") in ("ok", "other", "broken") and draw(st.booleans()):
                f["id"] = draw(st.sampled_from(IDS))
                f["cap"] = f"Figure {f['id']}: odd"
    if draw(strat.chance(1, 4)):
        doc["figs"].insert(draw(st.integers(0, len(doc["figs"]))), draw(inner_lint()))
    if draw(strat.chance(1, 25)):
        doc["figs"] += draw(many())
    if draw(strat.chance(1, 4)):
        # zeros in front
        for f in doc["figs"]:
            if f.get("kind") in ("ok", "other", "inner") and f["id"].isdigit() and draw(st.booleans()):
                f["id"] = "0" * draw(st.integers(1, 2)) + f["id"]
                f["cap"] = f"Figure {f['id']}: zeros"
    if kind == "html":
        for f in doc["figs"]:
            if "raw" not in f and draw(strat.chance(3, 4)):
                f["tid"] = f["id"] if f["id"] and draw(strat.chance(7, 8)) else draw(st.sampled_from(["1", "x", "i-1"]))
    doc["spec"] = doc["spec"].replace(",", ";")
    if "evision" in doc["spec"] or not doc["spec"].strip(";  ."):
        doc["spec"] = "Generic Specification"
    d["doc"] = strat.fill_values(doc)
    return d


@st.composite
def many(draw):
    """A great number of figures, each with a lint entry."""
    n = draw(st.sampled_from([60, 110, 170, 300]))
    body = {"t": "values", "cols": [["key", draw(st.sampled_from(["Code", "Value"]))], ["desc", "Description"]],
            "rows": [{"r": "f", "key": {"t": v}, "nm": {"n": "Same", "a": None}, "br": None} for v in ("0h", "1h")]}
    return [dict(copy.deepcopy(body), id=str(i), cap=f"Figure {i}: Many", kind="inner", wrap=False, tid=str(i)) for i in range(5000, 5000 + n)]


@st.composite
def inner_lint(draw):
    """A figure only the nested tables of which give lint entries."""
    i = str(draw(st.integers(1000, 1099)))
    fig = {"t": "values", "cols": [["key", "Value"], ["desc", "Description"]], "rows": [
        {"r": "f", "key": {"t": v}, "nm": {"n": "Same", "a": None}, "br": None} for v in ("0h", "1h")]}
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(["bits", "bytes"]))
        fig = {"t": t, "cols": [["key", t.title()], ["desc", "Description"]],
               "rows": [{"r": "f", "key": {"t": "7:0", "lo": 0, "hi": 7}, "nm": {"n": "Outer", "a": "OUT"}, "br": "x", "sub": [fig]}]}
    return dict(fig, id=i, cap=f"Figure {i}: " + draw(st.sampled_from(["Inner", "é", "<b>"])), kind="inner", wrap=False)


ACCEPTED = ["text/event-stream", "*/*", "text/*", "text/html, text/event-stream;q=0.5", "text/event-stream, */*;q=0.1", "TEXT/EVENT-STREAM"]
cases = st.fixed_dictionaries({"docs": st.lists(documents(), min_size=1, max_size=2), "accept": st.sampled_from(ACCEPTED),
                               "turns": st.binary(max_size=30).map(lambda b: [x % 4 for x in b])})
refused = st.fixed_dictionaries({
    "kind": st.sampled_from(["field", "nofile", "accept", "form", "empty", "noname", "json", "get", "extra", "plain", "plain", "plain"]),
    "doc": st.one_of(c23.documents(), c23.documents(), st.builds(lambda d, k: dict(d, kind=k), c23.documents(), st.sampled_from(("nometa", "norev") + c22.WRONG))), "name": st.sampled_from(["spec", "é", "a b", "x.y"]), "n": st.integers(0, 2),
    "other": st.sampled_from(["file", "Document", "documents", "doc", "document[]"]),
    "accept": st.sampled_from(["text/html", "application/json", "text/plain", "text/event", "image/*", "application/*, text/html"]), "accepted": st.sampled_from(ACCEPTED)})
SUBS = [Sub("streams", cases, run_streams, 800), Sub("refused", refused, run_refused, 640)]
