from vlib import strat
from vlib.core import Sub, judging, same
from vlib.judge import cases, compare, figs_of, observe
from vlib.props.c03 import lint_set, project

RULE = ("a value table with an entry whose name has two words or more, a leading number, characters other than letters "
        "and spaces, or comes from a separate attribute column")


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, ["values"], "value names")
    with judging("lint"):
        got = lint_set(o.lint)
    same(got, lint_set(exp.lint), "lint about names")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        attr = any(c[0] == "attr" for c in f["cols"])
        for r in f["rows"]:
            if r["r"] == "res":
                labels.add("reserved")
            if r["r"] != "f":
                continue
            n = r["at"]["n"] if attr else r["nm"]["n"]
            odd = not all(c.isascii() and c.isalpha() or c == " " for c in n)
            hits = [("separate column", attr), ("leading number", n[:1].isdigit()), ("several words", " " in n),
                    ("odd characters", odd), ("acronym", r["nm"]["a"] is not None), ("with brief", r["br"] is not None)]
            labels |= {n for n, v in hits if v}
            if any(v for _, v in hits[:4]):
                labels.add("nontrivial")
    labels |= {"reported " + x[0] for x in got}
    return labels


o = strat.Opt(types=["values"], vname=strat.value_name(), xmax=1, rows=(1, 6), free_desc=True)
SUBS = [Sub("names", cases(o, 1, 2), run, 4500)]
