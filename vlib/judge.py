"""What the model-based checks share."""
from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import judging, same

SEP = {0: "", 1: "\n", 2: "\n  \n   " * 3, 3: " "}


def cases(o, lo=1, hi=3, style=None):
    return st.fixed_dictionaries({"doc": strat.document(o, lo, hi), "style": style or strat.styles})


def split_cases(o, lo=1, hi=3):
    return st.fixed_dictionaries({"doc": strat.split_keys(strat.document(o, lo, hi)), "style": strat.styles})


def observe(case, **kw):
    """(outcome, expectation) for a generated document"""
    style = case.get("style") or {}
    o = sut.model_ok(render.html(case["doc"], style), **kw)
    return o, model.expect(case["doc"], SEP[style.get("ws", 1)])


def figs_of(doc):
    """All figure bodies, nested ones included, with their depth."""
    out = []

    def walk(f, depth):
        out.append((f, depth))
        for r in f.get("rows", []):
            for s in r.get("sub", []):
                walk(s, depth + 1)

    for f in doc["figs"]:
        walk(f, 0)
    return out


def compare(o, exp, project, types=None, what="entities"):
    """Entities of the given types agree after projection."""
    with judging("model"):
        got = [[e["fig_id"], e["type"], project(e)] for e in o.entities if types is None or e["type"] in types]
    want = [[e["fig_id"], e["type"], project(e)] for e in exp.entities if types is None or e["type"] in types]
    if got == want:
        return
    if len(got) == len(want):
        for g, w in zip(got, want):
            same(g, w, f"{what} of figure {w[0]}")
    same(got, want, what)


def compare_lint(o, exp, codes, ctx=False, drop=lambda d: False):
    with judging("lint"):
        got = model.lint_bag(o.lint, codes, ctx, drop)
    same(got, model.lint_bag(exp.lint, codes, ctx, drop), f"lint entries ({', '.join(sorted(codes))})")


def obsolete_dup(d):
    """Repeated 'Obsolete' fields are reported; no property covers that."""
    return d["code"] == "L1002" and (d.get("context") or {}).get("label") == "OBSOLETE"


def rowkinds(doc, types=None):
    return {r["r"] for f, _ in figs_of(doc) if types is None or f.get("t") in types for r in f.get("rows", [])}
