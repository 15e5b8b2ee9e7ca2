from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.judge import SEP, figs_of

RULE = "a document with at least one broken and one intact figure"


def depth_of_break(fig):
    d = [depth for f, depth in figs_of({"figs": [fig]}) if any(r["r"] == "bad" for r in f.get("rows", []))]
    return max(d, default=None)


def own(fid, x):
    return x == fid or x.startswith(fid + "_")


def run(case):
    doc, style = case["doc"], case["style"]
    broken = [f for f in doc["figs"] if depth_of_break(f) is not None]
    ids = [f["id"] for f in broken]
    clean = dict(doc, figs=[f for f in doc["figs"] if f not in broken])
    a = sut.model_ok(render.html(doc, style))
    b = sut.model_ok(render.html(clean, style))
    with judging("model"):
        others = [e for e in a.entities if not any(own(i, e["fig_id"]) for i in ids)]
        same(others, b.entities, "entities of the other figures")
        same([d for d in a.lint if not any(own(i, d["fig"]) for i in ids)], b.lint, "lint of the other figures")
        need(not any(e["fig_id"] in ids for e in a.entities), "a figure reported as failed is in the model")
        exp = model.expect(doc, SEP[style["ws"]])
        same(model.lint_bag(a.lint, {"T1000"}, ctx=True), model.lint_bag(exp.lint, {"T1000"}, ctx=True), "figures reported as failed")
    # without skipping
    c = sut.html_to_model(render.html(doc, style), skip=False)
    if not broken:
        need(c.exc is None, f"failed without skipping although no figure is broken: {c.exc!r}")
        same(c.raw, a.raw, "output with and without skipping")
    else:
        need(c.exc is not None, "a broken figure did not stop the run although skipping is disabled")
        need(c.model is not None, "no valid JSON written when a broken figure stopped the run")
        first = next(i for i, f in enumerate(doc["figs"]) if f in broken)
        prior = sut.model_ok(render.html(dict(doc, figs=doc["figs"][:first]), style))
        with judging("model"):
            got = [e for e in c.entities if not own(doc["figs"][first]["id"], e["fig_id"])]
            same(got, prior.entities, "entities before the broken figure")
    labels = {f"broken {min(len(broken), 4)}"}
    for f in broken:
        labels.add(f"broken at depth {depth_of_break(f)}")
        labels.add("broken " + f["t"])
        i = doc["figs"].index(f)
        labels.add("first" if i == 0 else "last" if i == len(doc["figs"]) - 1 else "middle")
    if broken and len(doc["figs"]) > len(broken):
        labels.add("nontrivial")
    return labels


@st.composite
def cases(draw):
    o = strat.Opt(rows=(1, 4), nested=2, brief=None, more=False, odd_hdr=True, contiguous=False, xmax=2, shuffle=True,
                  name=strat.struct_name(), vname=strat.value_name())
    figs = draw(strat.mixed_figs(o, lo=1, hi=6, kinds=("ok", "broken", "broken", "other", "nocap"), numeric=True))
    return {"doc": {"spec": "S", "rev": "1", "figs": figs}, "style": draw(strat.styles)}


SUBS = [Sub("documents", cases(), run, 1600)]
