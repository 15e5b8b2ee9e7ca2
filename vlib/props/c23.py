import hashlib
import zlib

from hypothesis import strategies as st

from vlib import strat, sut, web
from vlib.core import Sub, judging, need, same
from vlib.props import c22

RULE = "a history with at least two uploads of which two share a file name or their content, or overlap in time"
ASSUMPTIONS = ["requests are interleaved at the messages exchanged with the server, not inside of file operations"]
KINDS = ("report", "bundle", "json", "html")


def target(kind, h):
    return f"/report/{h}?bundle=1" if kind == "bundle" else f"/{kind}/{h}"


def expected(doc, names):
    """(model, {HTML it may be served with}) of a document under the names it is uploaded as, or None"""
    suf, blob = c22.data(doc)
    if doc["kind"] in c22.WRONG:
        return None
    model, htmls = None, set()
    for n in names if suf == ".docx" else names[:1]:
        with sut.Dir() as d:
            src = d / (n + suf)
            src.write_bytes(blob)
            (d / "out").mkdir()
            o = sut.process(src, d / "out")
            need(o.exc is None and o.raw is not None, f"processing a document on its own failed: {o.exc!r}")
            need(model in (None, o.raw), "the model depends on the name of the document")
            model = o.raw
            htmls.add(blob if suf == ".html" else sut.read(d / "out" / f"{n}.html"))
    return model, htmls


def check_get(r, kind, ref, must, what):
    """ref: (model, htmls) or None if nothing may ever be served"""
    if ref is None or (r.status == 404 and not must):
        need(r.status == 404, f"{what}: status is {r.status} instead of 404 ('not found')")
        return
    need(r.exc is None, f"{what}: failed with {r.exc!r}")
    need(r.status == 200, f"{what}: status is {r.status}")
    need(r.complete, f"{what}: the response is incomplete")
    if kind == "json":
        need(r.content == ref[0], f"{what}: serves another model than that of the document")
    elif kind == "html":
        need(r.content in ref[1], f"{what}: serves other HTML than that of the document")
    else:
        with judging("report page"):
            import json

            vals = [v for _, v in web.Page(r.content).values()]
            want = json.loads(ref[0])
        need(want in vals, f"{what}: does not hold the model of the document")


def run(case):
    docs = case["docs"]
    blobs = [c22.data(d) for d in docs]
    hashes = [hashlib.md5(b).hexdigest() for _, b in blobs]
    names = {}
    for op in case["ops"]:
        if op[0] == "up":
            names.setdefault(hashes[op[1]], set()).add(op[2])
    refs = {}
    for i, d in enumerate(docs):
        if hashes[i] in names:
            refs[hashes[i]] = expected(d, sorted(names[hashes[i]]))
    labels = set()

    async def go(s):
        done = set()  # hashes of which a report was issued
        meta = {}
        urls = {}
        reqs = []
        for op in case["ops"]:
            if op[0] == "up":
                suf, blob = blobs[op[1]]
                r = web.upload(op[2] + suf, blob, enc=op[3] % 3, chunk=[1 << 20, 700, 4000][op[3] % 3], abort=op[4])
                meta[r] = ("up", hashes[op[1]], docs[op[1]]["kind"])
            else:
                h = op[2]
                h = hashes[h] if isinstance(h, int) else h
                r = web.Request("GET", target(op[1], h))
                meta[r] = ("get", h, op[1])
            reqs.append(r)
        live = []
        must = {}

        def started(r):
            if meta[r][0] == "up":
                if any(meta[x][0] == "up" for x in live):
                    labels.add("overlapping uploads")
            elif any(meta[x][0] == "up" for x in live):
                labels.add("lookup during upload")
            live.append(r)
            must[r] = meta[r][1] in done

        def ended(r):
            live.remove(r)
            op, h, kind = meta[r]
            if op == "get":
                check_get(r, kind, refs.get(h), must[r], f"{kind} of {'a known' if must[r] else 'an unknown'} document")
                labels.add(f"{kind} {r.status}")
                return
            if r.abort is not None and r.gone:
                labels.add("upload abandoned")
                return
            with judging("event stream"):
                url = web.completion(r)
            labels.add(f"upload {kind}")
            if refs[h] is None:
                need(url is None, "a report was issued for a document that cannot be processed")
                return
            need(url is not None, f"no report was issued for a document that can be processed (status {r.status}, {r.exc!r})")
            need(urls.setdefault(h, url) == url, "the same document has reports of different URLs")
            need(all(u != url for k, u in urls.items() if k != h), "different documents have reports of the same URL")
            done.add(h)

        await s.run(reqs, case["turns"], started, ended)
        # in the end, every report issued still serves its document, and nothing else does
        for h, ref in refs.items():
            for kind in KINDS:
                t = target(kind, h)
                if kind == "report" and h in urls:
                    t = urls[h]
                r = await s.get(t)
                check_get(r, kind, ref, h in done, f"{kind} of {'a known' if h in done else 'an unknown'} document in the end")
        # the links on the report page serve the document too
        for h in sorted(done)[:2]:
            r = await s.get(urls[h])
            with judging("report page"):
                links = [v for t, k, v in web.Page(r.content).links if t == "a" and v != "/" and v.startswith("/")]
            got = []
            for ln in links:
                r = await s.get(ln)
                need(r.status == 200, f"link {ln} of a report page: status is {r.status}")
                got.append(r.content)
            need(refs[h][0] in got, "no link of the report page serves the model")
            need(any(g in refs[h][1] for g in got), "no link of the report page serves the HTML")

    web.serve(go)
    ups = [o for o in case["ops"] if o[0] == "up"]
    same_name = any(a[2] == b[2] and hashes[a[1]] != hashes[b[1]] for i, a in enumerate(ups) for b in ups[:i])
    again = any(hashes[a[1]] == hashes[b[1]] for i, a in enumerate(ups) for b in ups[:i])
    if same_name:
        labels.add("equal names")
    if again:
        labels.add("uploaded again")
    if same_name or again or "overlapping uploads" in labels:
        labels.add("nontrivial")
    return labels


o = strat.Opt(rows=(1, 4), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, more=False)
WRONG = [k for k in c22.WRONG]


@st.composite
def documents(draw):
    kind = draw(st.sampled_from(["html", "html", "html", "docx"]))
    if draw(strat.chance(1, 8)):
        kind = draw(st.sampled_from(WRONG))
    doc = {"spec": draw(strat.spec_title), "rev": draw(strat.spec_rev),
           "figs": draw(strat.mixed_figs(o, lo=0, hi=2, kinds=("ok", "other", "noid") + (("broken",) if kind == "html" else ())))}
    doc["spec"] = doc["spec"].replace(",", ";")
    if "evision" in doc["spec"] or not doc["spec"].strip(";  ."):
        doc["spec"] = "Generic Specification"
    return {"kind": kind, "doc": strat.fill_values(doc)}


NAMES = st.sampled_from(["spec", "spec", "a", "NVM Express 2.0", "é", "x.y", "report"])
UNKNOWN = st.sampled_from(["0" * 32, "d41d8cd98f00b204e9800998ecf8427e", "x", "..", "%2e%2e", "spec", "spec.json", "%C3%A9", "a%00b", "None", "%20"])


@st.composite
def cases(draw):
    docs = draw(st.lists(documents(), min_size=1, max_size=3))
    for i, d in enumerate(docs):  # no two of the same content but different kinds
        d["doc"]["rev"] += f"-{i}"
    n = draw(st.integers(2, 9))
    ops = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        d = draw(st.integers(0, len(docs) - 1))
        if i == 0 or k < 5:
            ops.append(["up", d, draw(NAMES), draw(st.integers(0, 2)), draw(st.integers(0, 12)) if draw(strat.chance(1, 8)) else None])
        else:
            ops.append(["get", draw(st.sampled_from(KINDS)), draw(UNKNOWN) if k == 9 else d])
    turns = [b % 5 for b in draw(st.binary(min_size=8, max_size=100))] if draw(strat.chance(2, 3)) else []
    return {"docs": docs, "ops": ops, "turns": turns}


@st.composite
def many(draw):
    """Many different documents of the same name, one after the other."""
    n = draw(st.integers(10, 40))
    tiny = {"kind": "html", "doc": {"spec": draw(strat.spec_title), "rev": "1.0", "figs": []}}
    docs = [{"kind": "html", "doc": dict(tiny["doc"], rev=f"{draw(strat.spec_rev)}-{i}")} for i in range(n)]
    name = draw(NAMES)
    return {"docs": docs, "ops": [["up", i, name, 0, None] for i in range(n)], "turns": []}


DIGESTS = {
    "md5 begins alike": lambda b: hashlib.md5(b).digest()[:4],
    "md5 ends alike": lambda b: hashlib.md5(b).digest()[-4:],
    "sha1 begins alike": lambda b: hashlib.sha1(b).digest()[:4],
    "sha256 begins alike": lambda b: hashlib.sha256(b).digest()[:4],
    "same crc": zlib.crc32,
    "same sum": lambda b: (sum(b), zlib.adler32(b)),
}


def nonce(n):
    return hashlib.md5(b"%d" % n).hexdigest()[:12]


def run_alike(case):
    """Two documents of one length which all but share their checksum."""
    doc = {"spec": case["spec"], "rev": "1.0-@@@@@@@@", "figs": []}
    blob = c22.data({"kind": "html", "doc": doc})[1]
    digest, seen, pair = DIGESTS[case["how"]], {}, None
    for n in range(case["start"], case["start"] + 10**6):
        h = digest(blob.replace(b"@@@@@@@@", nonce(n).encode()))
        if h in seen:
            pair = [seen[h], n]
            break
        seen[h] = n
    if pair is None:
        return set()
    docs = [{"kind": "html", "doc": dict(doc, rev=f"1.0-{nonce(n)}")} for n in pair]
    assert digest(c22.data(docs[0])[1]) == digest(c22.data(docs[1])[1])
    return run({"docs": docs, "ops": case["ops"], "turns": case["turns"]}) | {"nontrivial", case["how"]}


@st.composite
def alike(draw):
    ops = [["up", 0, draw(NAMES), 0, None], ["up", 1, draw(NAMES), 0, None]] + [["get", k, i] for k in draw(st.lists(st.sampled_from(KINDS), max_size=2)) for i in (0, 1)]
    return {"spec": draw(st.sampled_from(["S", "NVM Express", "Zoned"])), "how": draw(st.sampled_from(sorted(DIGESTS))), "start": draw(st.integers(0, 9 * 10**7)),
            "ops": ops, "turns": []}


SUBS = [Sub("alike", alike(), run_alike, 40), Sub("histories", cases(), run, 800), Sub("many", many(), run, 32)]
