from vlib import model, strat
from vlib.core import Sub, judging, same
from vlib.judge import cases, compare, figs_of, observe

RULE = ("a structure with a named field whose name has an acronym, two words or more, or characters other than letters "
        "and spaces, or comes from a separate attribute column")
CODES = {"L1003", "L1004"}


def project(e):
    return [f["label"] for f in e["fields"]]


def lint_set(lint):
    bag = model.lint_bag(lint, CODES)
    return [x for i, x in enumerate(bag) if i == 0 or bag[i - 1] != x]


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, ["bits", "bytes"], "field names")
    with judging("lint"):
        got = lint_set(o.lint)
    same(got, lint_set(exp.lint), "lint about names")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        attr = any(c[0] == "attr" for c in f["cols"])
        for r in f["rows"]:
            if r["r"] != "f":
                continue
            nm = r["nm"]
            odd = not all(c.isascii() and c.isalpha() or c == " " for c in nm["n"])
            hits = [("separate column", attr), ("acronym", nm["a"] is not None), ("several words", " " in nm["n"]),
                    ("odd characters", odd), ("with brief", r["br"] is not None)]
            labels |= {n for n, v in hits if v}
            if any(v for _, v in hits[:4]):
                labels.add("nontrivial")
    labels |= {"reported " + x[0] for x in got}
    return labels


o = strat.Opt(types=["bits", "bytes"], name=strat.struct_name(), xmax=1, rows=(1, 6))
SUBS = [Sub("names", cases(o, 1, 2), run, 4500)]
