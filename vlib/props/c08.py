from hypothesis import strategies as st

from vlib import model, strat
from vlib.core import Sub, judging, same
from vlib.judge import observe

RULE = "a document with at least two tables of which at least one is not simply an extracted figure"
CODES = {"T1000", "T1007", "T1008"}


def ordered(lint):
    return [x for d in lint if d["code"] in CODES for x in model.lint_bag([d], ctx=True)]


def run(case):
    o, exp = observe(case)
    with judging("model"):
        got = [[e["fig_id"], e["title"]] for e in o.entities if "parent_fig_id" not in e]
    same([[f, model.squeeze(t)] for f, t in got], [[e["fig_id"], model.squeeze(e["title"])] for e in exp.entities if "parent_fig_id" not in e], "figures extracted")
    # the blanks in a caption of one paragraph are those of the document
    caps = {f["cap"] for f in case["doc"]["figs"] if isinstance(f.get("cap"), str)}
    loose = {model.squeeze(" ".join(b for b in f["cap"] if isinstance(b, str))) for f in case["doc"]["figs"] if isinstance(f.get("cap"), list)}
    squeezed = {model.squeeze(c) for c in caps} - loose
    for f, t in got:
        if model.squeeze(t) in squeezed and t.strip() not in caps:
            same(t, [c for c in sorted(caps) if model.squeeze(c) == model.squeeze(t)], f"title of figure {f}")
    with judging("lint"):
        got = ordered(o.lint)
    same(got, ordered(exp.lint), "tables accounted for")
    figs = case["doc"]["figs"]
    labels = {"table " + f.get("kind", "empty") for f in figs} | {"wrapped" for f in figs if f.get("wrap")}
    labels.add(f"tables {len(figs)}")
    if len(figs) > 1 and any(f.get("kind") != "ok" for f in figs):
        labels.add("nontrivial")
    return labels


o = strat.Opt(rows=(0, 3), nested=1, brief=None, more=False, xmax=1, free_desc=True)
SUBS = [Sub("documents", st.fixed_dictionaries({"doc": strat.mixed_document(o, hi=12), "style": strat.styles}), run, 2500)]
