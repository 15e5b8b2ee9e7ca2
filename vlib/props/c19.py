from vlib import docx, dstrat
from vlib.core import Sub, judging, need, same
from vlib.props.c17 import convert

RULE = "a document with at least three texts, at least two of which are formatted, differently"


def merged(runs, f):
    """[[text, formatting]] with equally formatted neighbours joined"""
    out = []
    for r in runs:
        v = f(r)
        if out and out[-1][1] == v:
            out[-1][0] += r[0]
        else:
            out.append([r[0], v])
    return out


def run(case):
    o, got, want, read = convert(case)
    n = 0
    seen = []
    classes = {}
    with judging("HTML"):
        for t, w in zip(got, want):
            gp, wp = list(docx.all_runs(t)), list(docx.all_runs(w))
            for g, x in zip(gp, wp):
                same(merged(g, lambda r: r[1]), merged(x, lambda r: docx.seen(r[1])), "formatted texts")
                # which class each character got
                gi = [(c, r[2]) for r in g for c in r[0]]
                wi = [(c, tuple(sorted(r[1].items()))) for r in x for c in r[0]]
                for (c, cls), (_, settings) in zip(gi, wi):
                    classes.setdefault(settings, set()).add(cls)
                n += len(x)
                seen += [docx.seen(r[1]) for r in x]
            need(len(gp) == len(wp), "paragraphs are missing")
        need(len(got) == len(want), "tables are missing")
    for settings, cls in classes.items():
        need(len(cls) == 1, f"texts formatted alike ({dict(settings)}) use the styles {sorted(map(str, cls))}")
    labels = {f"styles {len(case['styles'])}"}
    kinds = {tuple(sorted((k, str(v)) for k, v in s.items())) for s in seen}
    if n >= 3 and len(kinds) >= 3:
        labels.add("nontrivial")
    if any(s.get("base") for s in case["styles"]):
        labels.add("based on")
    return labels | {f"formats {min(len(kinds), 8)}"}


o = dstrat.Opt(rows=2, cols=2, blocks=(1, 3), runs=6, depth=1, text=dstrat.words)
few = dstrat.Opt(rows=3, cols=4, blocks=(1, 2), runs=4, depth=0, text=dstrat.words, odd=False)
SUBS = [
    Sub("styles", dstrat.document(o, styles=True), run, 2000),
    Sub("many", dstrat.document(few, styles=True, hi=4), run, 600),
]
