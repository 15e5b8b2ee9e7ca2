import copy
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from vlib import boot, docx, dstrat, render, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.props import c21, c22, c27

RULE = "several documents or figures, at least two of which give entities or lint"
CORRECTED = [(t, r) for t in strat.TITLES for r in ("1.0c", "1.1c", "1.2c", "1.0", "9.9")]


def numberless(v):
    """The running number of figures without id is the document's, not the figure's."""
    if isinstance(v, list):
        return [numberless(x) for x in v]
    if isinstance(v, dict) and isinstance(v.get("fig"), str):
        return dict(v, fig=re.sub(r"^FIG_ID_MISSING\[\d+\]$", "FIG_ID_MISSING", v["fig"]))
    return v


def run_split(case):
    doc, style = case["doc"], case["style"]
    whole = sut.model_ok(render.html(doc, style))
    parts = [sut.model_ok(render.html(dict(doc, figs=[f]), style)) for f in doc["figs"]]
    order = case["order"]
    perm = sut.model_ok(render.html(dict(doc, figs=[doc["figs"][i] for i in order]), style))
    with judging("model"):
        for o, idx, what in ((whole, range(len(parts)), "of the whole document"), (perm, order, "of the reordered document")):
            same(o.entities, [e for i in idx for e in parts[i].entities], "entities " + what)
            same(numberless(o.lint), numberless([d for i in idx for d in parts[i].lint]), "lint " + what)
        # cut in two
        k = case["cut"] % (len(parts) + 1)
        a, b = (sut.model_ok(render.html(dict(doc, figs=fs), style)) for fs in (doc["figs"][:k], doc["figs"][k:]))
        same(a.entities + b.entities, whole.entities, "entities of the two halves")
    busy = sum(bool(p.entities or p.lint) for p in parts)
    labels = {f"figures {min(len(parts), 6)}"}
    if busy >= 2:
        labels.add("nontrivial")
    if list(order) != sorted(order):
        labels.add("reordered")
    return labels | {"kind " + f.get("kind", "empty") for f in doc["figs"]}


def write_docs(d, docs):
    for i, doc in enumerate(docs):
        (d / f"d{i}.html").write_text(render.html(doc), encoding="utf-8", newline="")


def run_order(case):
    """Documents processed after each other in one process, in any order, by any interface."""
    docs = case["docs"]
    with sut.Dir() as d:
        write_docs(d, docs)
        want = []
        for i in range(len(docs)):
            (d / f"o{i}").mkdir()
            o = sut.process(d / f"d{i}.html", d / f"o{i}")
            need(o.exc is None, f"processing failed: {o.exc!r}")
            (d / f"f{i}").mkdir()
            want.append(sut.Fresh.process(d / f"d{i}.html", d / f"f{i}"))
            need(o.raw == want[i], f"document {i} gave another model after others than in a process of its own")
        # again, any order, with and without progress reports
        for k, (i, progress) in enumerate(case["again"]):
            i %= len(docs)
            (d / f"p{k}").mkdir()
            o = sut.process(d / f"d{i}.html", d / f"p{k}", progress=progress)
            need(o.exc is None, f"processing failed on another run: {o.exc!r}")
            need(o.raw == want[i], f"document {i} gave another model on another run (progress={progress})")
        # interleaved
        gens, res = [], {}
        from pathlib import Path

        from spex.jsonspec.parserargs import ParserArgs
        from spex.parse import parse_spec

        for i in range(len(docs)):
            (d / f"q{i}").mkdir()
            gens.append((i, parse_spec(Path(d / f"d{i}.html"), ParserArgs(output_dir=Path(d / f"q{i}"), skip_fig_on_error=True), yield_progress=True)))
        turn = 0
        while gens:
            k = case["turns"][turn % len(case["turns"])] % len(gens)
            turn += 1
            try:
                next(gens[k][1])
            except StopIteration:
                res[gens[k][0]] = 1
                del gens[k]
            except Exception as e:
                need(False, f"processing failed when interleaved: {e!r}")
        for i in range(len(docs)):
            need(sut.read(d / f"q{i}" / f"d{i}.json") == want[i], f"document {i} gave another model when interleaved with others")
        code = sut.cli(["-s", "-o", d / "all"] + [d / f"d{i}.html" for i in case["perm"]])
        need(code == 0, f"exit status {code} for all inputs")
        for i in range(len(docs)):
            need(sut.read(d / "all" / f"d{i}.json") == want[i], f"document {i} gave another model along with other inputs")
    labels = {f"documents {len(docs)}"}
    if sum(len(w) > 400 for w in want) >= 2:
        labels.add("nontrivial")
    return labels


PROG = """import sys
from pathlib import Path
sys.path.insert(0, sys.argv[1])
from spex.jsonspec.parserargs import ParserArgs
from spex.parse import parse_spec
for p in sys.argv[3:]:
    for _ in parse_spec(Path(p), ParserArgs(output_dir=Path(sys.argv[2]), skip_fig_on_error=True)): pass
"""


def run_process(case):
    docs = case["docs"]
    with sut.Dir() as d:
        write_docs(d, docs)
        want = []
        for i in range(len(docs)):
            (d / f"o{i}").mkdir()
            want.append(sut.process(d / f"d{i}.html", d / f"o{i}").raw)
        for h in case["hash"]:
            (d / f"h{h}").mkdir()
            (d / f"h{h}" / "out").mkdir()
            env = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-c", PROG, boot.SRC, "out"] + [f"../d{i}.html" for i in range(len(docs))],
                               cwd=d / f"h{h}", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
            need(r.returncode == 0, f"processing failed in another process: {r.stderr[-400:].decode('utf-8', 'replace')}")
            for i in range(len(docs)):
                got = sut.read(d / f"h{h}" / "out" / f"d{i}.json")
                need(got == want[i], f"document {i} gave another model in a process with hash seed {h}")
    return {"nontrivial"} if sum(len(w) > 400 for w in want) >= 2 else {"small"}


PARTS = (".json", ".html", ".css")


def run_docx(case):
    """As before, and the HTML and style sheets as well."""
    from pathlib import Path

    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec

    docs = [docx.build(dict(x["rich"], head=dstrat.HEAD, body=x["rich"]["body"] + [["t", c21.Conv([3, 1, 4, 1, 5]).table(f)] for f in x["figs"]])) for x in case["docs"]]
    n = len(docs)

    def files(d, i):
        return [sut.read(d / f"d{i}{s}") for s in PARTS]

    with sut.Dir() as d:
        for i, blob in enumerate(docs):
            (d / f"d{i}.docx").write_bytes(blob)
            (d / f"f{i}").mkdir()
            sut.Fresh.process(d / f"d{i}.docx", d / f"f{i}")
        want = [files(d / f"f{i}", i) for i in range(n)]

        def check(where, i, how):
            for s, a, b in zip(PARTS, files(where, i), want[i]):
                need(a == b, f"document {i} gave another {s[1:]} {how} than in a process of its own")

        for k, (i, progress) in enumerate(case["again"]):
            i %= n
            (d / f"p{k}").mkdir()
            o = sut.process(d / f"d{i}.docx", d / f"p{k}", progress=progress)
            need(o.exc is None, f"processing failed: {o.exc!r}")
            check(d / f"p{k}", i, "after others")
        gens = []
        for i in range(n):
            (d / f"q{i}").mkdir()
            gens.append((i, parse_spec(Path(d / f"d{i}.docx"), ParserArgs(output_dir=Path(d / f"q{i}"), skip_fig_on_error=True), yield_progress=True)))
        turn = 0
        while gens:
            k = case["turns"][turn % len(case["turns"])] % len(gens)
            turn += 1
            try:
                next(gens[k][1])
            except StopIteration:
                del gens[k]
            except Exception as e:
                need(False, f"processing failed when interleaved: {e!r}")
        for i in range(n):
            check(d / f"q{i}", i, "when interleaved with others")
        code = sut.cli(["-s", "-o", d / "all"] + [d / f"d{i}.docx" for i in case["perm"]])
        need(code == 0, f"exit status {code} for all inputs")
        for i in range(n):
            check(d / "all", i, "along with other inputs")
    labels = {f"documents {n}"}
    if len({w[2] for w in want}) > 1 or sum(len(w[0]) > 400 for w in want) >= 2:
        labels.add("nontrivial")
    return labels


def run_example(case):
    from lxml import etree

    src = sut.examples()[case["example"]]
    outs = []
    with sut.Dir() as d:
        for k in range(3):
            tree = etree.fromstring(src.read_bytes())
            tabs = tree.findall("./body/table")
            cut = case["cut"] % (len(tabs) + 1)
            for i, t in enumerate(tabs):
                if k == 1 and i >= cut or k == 2 and i < cut:
                    t.getparent().remove(t)
            p = d / f"e{k}.html"
            p.write_bytes(etree.tostring(tree, encoding="utf-8"))
            (d / f"x{k}").mkdir()
            o = sut.process(p, d / f"x{k}")
            need(o.exc is None, f"{src.name}: processing failed: {o.exc!r}")
            outs.append(o)
    whole, a, b = outs
    with judging("model"):
        same(a.entities + b.entities, whole.entities, f"entities of the two parts of {src.name}")
        same(numberless(a.lint + b.lint), numberless(whole.lint), f"lint of the two parts of {src.name}")
    return {"nontrivial"} if a.entities and b.entities else {"one part empty"}


def opt(**kw):
    return strat.Opt(rows=(1, 5), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1,
                     name=strat.struct_name(), vname=strat.value_name(), **kw)


@st.composite
def title(draw):
    i = draw(st.integers(0, 6))
    return (strat.TITLES[i], strat.REVS[i]) if i < 5 else (draw(strat.spec_title), draw(strat.spec_rev))


@st.composite
def docs(draw, lo, hi):
    spec, rev = draw(title())
    return {"spec": spec, "rev": rev, "figs": draw(strat.mixed_figs(opt(), lo=lo, hi=hi, numeric=True))}


@st.composite
def split(draw):
    doc = draw(docs(1, 5))
    n = len(doc["figs"])
    if n and draw(strat.chance(1, 4)):
        # the same figure twice
        doc["figs"].append(copy.deepcopy(doc["figs"][draw(st.integers(0, n - 1))]))
        n += 1
    return {"doc": doc, "order": draw(st.permutations(range(n))), "cut": draw(st.integers(0, n)), "style": draw(strat.styles)}


@st.composite
def order(draw):
    ds = draw(st.lists(docs(1, 3), min_size=2, max_size=4))
    k = draw(st.integers(0, 3))
    if k == 0:
        # figures with corrections, under different titles and revisions
        base = draw(c27.cases())["doc"]
        ds[1:] = [dict(base, spec=t, rev=r) for t, r in draw(st.lists(st.sampled_from(CORRECTED), min_size=2, max_size=3))]
        ds[0] = base
    elif k == 1:
        # a variation of another document: same figures, other title
        other = copy.deepcopy(ds[0])
        other["spec"], other["rev"] = draw(title())
        ds.append(other)
    n = len(ds)
    return {"docs": ds, "again": draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans()), min_size=1, max_size=5)),
            "turns": draw(st.lists(st.integers(0, 9), min_size=1, max_size=8)), "perm": draw(st.permutations(range(n)))}


@st.composite
def conversions(draw):
    ds = draw(st.lists(st.fixed_dictionaries({"rich": c22.rich, "figs": st.lists(strat.figure_body(opt()), max_size=1)}), min_size=2, max_size=3))
    for x in ds[1:]:
        # other parts of the package defining the same names, or the same text
        for k in draw(st.lists(st.sampled_from(["styles", "nums", "body"]), max_size=2, unique=True)):
            x["rich"][k] = ds[0]["rich"][k]
    for x in ds:
        for i, f in enumerate(x["figs"]):
            f.update(id=str(i), cap=f"Figure {i}: F")
    n = len(ds)
    return {"docs": ds, "again": draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans()), min_size=1, max_size=4)),
            "turns": draw(st.lists(st.integers(0, 9), min_size=1, max_size=8)), "perm": draw(st.permutations(range(n)))}


SUBS = [
    Sub("conversions", conversions(), run_docx, 300),
    Sub("split", split(), run_split, 1200),
    Sub("order", order(), run_order, 500),
    Sub("processes", st.fixed_dictionaries({"docs": st.lists(docs(2, 5), min_size=2, max_size=4), "hash": st.just([0, 1, 4711])}), run_process, 24, 160),
    Sub("examples", st.fixed_dictionaries({"example": st.integers(0, 7), "cut": st.integers(0, 400)}), run_example, 24, 400),
]
