from vlib import model, strat
from vlib.core import Sub
from vlib.judge import cases, compare, figs_of, observe, split_cases

RULE = ("a value table with at least two entries and at least one of: ellipsis row, notes row, repeated header row, "
        "comment row, reserved row, more than ten entries, a value text with characters other than ASCII letters and digits")


def project(e):
    return [[f["val"], f["label"] == model.ELL] for f in e["fields"]]


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, ["values"], "values")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        if f["t"] != "values":
            continue
        kinds = {r["r"] for r in f["rows"]}
        labels |= {"row " + k for k in kinds}
        odd = any(not (c.isascii() and c.isalnum()) for r in f["rows"] if "key" in r for c in r["key"]["t"])
        if any("ps" in r.get("key", ()) for r in f["rows"]):
            labels.add("value in two paragraphs")
        n = len(f["rows"])
        if n > 10:
            labels.add("long")
        if f["cols"][0][0] != "key":
            labels.add("value column not first")
        if len(f["cols"]) > 3:
            labels.add("four columns or more")
        if n >= 2 and (odd or n > 10 or kinds - {"f"}):
            labels.add("nontrivial")
    return labels


mix = strat.Opt(types=["values", "values", "values", "bits", "bytes"], odd_hdr=True, name=strat.struct_name(),
                vname=strat.value_name(), shuffle=True, xmax=2, rows=(0, 9), free_desc=True)
long = strat.Opt(types=["values"], rows=(10, 70), more=False, xmax=0, brief=None)
SUBS = [
    Sub("mixed", split_cases(mix, 1, 3), run, 1800),
    Sub("long", cases(long, 1, 1), run, 120),
]
