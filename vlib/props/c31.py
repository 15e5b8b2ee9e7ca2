import json

from hypothesis import strategies as st

from vlib import page, sut, web
from vlib.core import Sub, judging, need, same
from vlib.props import c22, c25

RULE = "a stream arriving in at least two pieces, one of them not ending with an event"


def bars(view):
    """[(value, max)] of the progress bars, None if they are hidden"""
    out = []
    for e, _ in page.seen(view, "progress"):
        v, m = e[1].get("value"), e[1].get("max")
        out.append([None if v is None else float(v), None if m is None else float(m)])
    return out


def forms(view):
    return page.seen(view, "form")


def progress(evs):
    """What the bars are to show after these events: per phase, the last update of it."""
    last = {}
    for e in evs:
        if e["type"] == "progress-update":
            last[e["phase"]] = [float(e["fig_ndx"]), float(e["num_figs"])]
    return last


def pieces(blob, cuts):
    cuts = sorted({int(len(blob) * c / 4096) for c in cuts} - {0, len(blob)})
    return [blob[a:b] for a, b in zip([0] + cuts, cuts + [len(blob)])]


def run(case):
    suf, blob = c22.data(case["doc"])
    name = case["name"] + suf
    ok = {}

    async def go(s):
        r = web.upload(name, blob, accept="*/*")
        await s.run([r])
        start = await page.load(s, "/")
        need(len(forms(start.view)) == 1, "the start page has no form")
        ok["r"] = r
        g = await s.get("/")
        ok["page"] = g.content
        ok["statics"] = {}
        for tag, attr, v in web.Page(g.content).links:
            if tag == "script" and ":" not in v:
                ok["statics"][v] = (await s.get(v)).content.decode("utf-8")
        ok["url"] = web.completion(r)
        need(ok["url"] is not None, "no report was issued for a document that can be processed")

    web.serve(go)
    r = ok["r"]
    blob = r.content
    if case["cuts"] == "events":
        chunks = [x + b"\n\n" for x in blob.split(b"\n\n")[:-1]]
    else:
        chunks = pieces(blob, case["cuts"])
    stream = {"status": 200, "chunks": chunks}
    done = True
    if case["fail"] == "refused":
        stream = {"status": case["status"], "chunks": [b"document missing"]}
        done = False
    elif case["fail"] == "broken":
        whole = len(chunks) - 1
        stream = {"status": 200, "chunks": [chunks[i] for i in range(min(case["n"], whole))], "broken": True}
        done = False
    b = page.Browser()
    b.open("/", ok["page"], ok["statics"], {"input[type='file']": name}, stream)
    labels = {suf}
    with judging("start page"):
        need(len(forms(b.view)) == 1, "the start page has no form")
        need(not bars(b.view), "progress is shown before anything was uploaded")
        form = forms(b.view)[0][1]
    b.act("submit", form)
    with judging("start page"):
        need(len(b.sent) == 1, f"{len(b.sent)} requests are sent")
        q = b.sent[0]
        same([q["method"], q["url"].removeprefix("http://localhost")], ["POST", "/parse"], "request sent")
        need(["document", {"file": name}] in (q["form"] or []), f"the form sent is {q['form']}")
        acc = q["headers"].get("accept", "*/*")
        need("text/event-stream" in acc or "*/*" in acc or "text/*" in acc, f"the page accepts {acc} only")
        if done:
            same((b.href or "").removeprefix("http://localhost"), ok["url"], "page shown once the document has been processed")
        else:
            need(b.href is None or "/report/" not in b.href, f"without a completed report, the page moves to {b.href}")
        if case["fail"] == "refused":
            need(len(forms(b.view)) == 1, "the form is gone after a refusal")
            return labels | {"refused"}
        # one view per piece, then one once all has come to rest
        seen = b""
        for i, c in enumerate(stream["chunks"]):
            seen += c
            text = seen.decode("utf-8", "ignore")
            # an event has arrived once its line is complete, at the latest once it has ended
            early = [json.loads(x[6:]) for x in text.split("\n")[:-1] if x]
            late = [json.loads(x[6:]) for x in text.split("\n\n")[:-1]]
            if any(e["type"] == "report-completed" for e in early):
                break
            got = bars(b.views[i])
            need(len(got) == 2 and not forms(b.views[i]), f"{len(got)} progress bars are shown after {len(late)} events")
            for want in (progress(early), progress(late)):
                if "json" in want and got[1] == want["json"]:
                    need(got[0][0] == got[0][1], "the conversion is not shown as finished during the extraction")
                    labels.add("extraction")
                elif "html" in want and "json" not in want and got[0] == want["html"]:
                    labels.add("conversion")
                elif want and want == progress(late) == progress(early):
                    need(False, f"after {len(late)} events, the last ones being {want}, the progress is shown as {got}")
    if case["fail"]:
        labels.add("broken off")
    if len(chunks) > 1 and any(not c.endswith(b"\n\n") for c in chunks):
        labels |= {"nontrivial", "cut within an event"}
    return labels


cuts = st.one_of(st.just("events"), st.just([]), st.lists(st.integers(1, 4095), min_size=1, max_size=4), st.lists(st.integers(1, 4095), min_size=1, max_size=40),
                 st.lists(st.integers(3700, 4095), min_size=1, max_size=5))
cases = st.fixed_dictionaries({"doc": c25.documents(), "name": st.sampled_from(["spec", "NVM é", "a b", "x.y", "'q'", "%41"]), "cuts": cuts,
                               "fail": st.sampled_from([None] * 8 + ["refused", "broken"]), "status": st.sampled_from([400, 404, 413, 422, 500]), "n": st.integers(0, 9)})
SUBS = [Sub("uploads", cases, run, 640)]
