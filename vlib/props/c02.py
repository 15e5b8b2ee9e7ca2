from vlib import model, strat
from vlib.core import Sub
from vlib.judge import cases, compare, figs_of, observe, split_cases

RULE = ("a bit or byte table with at least two fields and at least one of: reserved, elided, comment, note or header row, "
        "an offset text which is no plain number or pair, more than ten rows, an offset above 2^32")
SPECIAL = ("RESERVED", "OBSOLETE", model.ELL)


def project(e):
    return [[model.squeeze(f["range"]), f["label"] if f["label"] in SPECIAL else None] for f in e["fields"]]


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, ["bits", "bytes"], "field ranges")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        if f["t"] not in ("bits", "bytes"):
            continue
        kinds = {r["r"] for r in f["rows"]}
        labels |= {"row " + k for k in kinds} | {f["t"]}
        keys = [r["key"] for r in f["rows"] if "key" in r]
        if any("ps" in k for k in keys):
            labels.add("offset in two paragraphs")
        raw = any("lo" not in k for k in keys)
        big = any(k.get("hi", 0) > 2**32 for k in keys)
        labels |= {n for n, v in (("unparseable offset", raw), ("offset above 2^32", big), ("long", len(keys) > 10)) if v}
        if len(keys) >= 2 and (raw or big or len(keys) > 10 or kinds - {"f"}):
            labels.add("nontrivial")
    return labels


mix = strat.Opt(types=["bits", "bytes", "bits", "bytes", "values"], contiguous=False, name=strat.struct_name(), xmax=2,
                shuffle=True, odd_hdr=True, rows=(0, 9))
long = strat.Opt(types=["bits", "bytes"], rows=(10, 70), more=False, xmax=0, brief=None)
SUBS = [
    Sub("mixed", split_cases(mix, 1, 3), run, 4000),
    Sub("long", cases(long, 1, 1), run, 160),
]
