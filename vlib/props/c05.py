from vlib import model, strat
from vlib.core import Sub
from vlib.judge import cases, compare, figs_of, observe

RULE = "a named row with a text after its name that has more than 50 characters, several sentences or several paragraphs"


def project(e):
    return [model.squeeze(f.get("brief")) for f in e["fields"]]


def run(case):
    o, exp = observe(case)
    compare(o, exp, project, what="briefs")
    labels = set()
    for f, depth in figs_of(case["doc"]):
        for r in f["rows"]:
            if r["r"] == "f":
                br = r["br"]
                if br is None:
                    labels.add("no colon")
                    continue
                n = len(br.rstrip("."))
                first = len(br.split(".")[0])
                hits = [("length 59..61", 59 <= n <= 61 or n > 61 and 59 <= first <= 61), ("long", n > 60),
                        ("sentences", "." in br.rstrip(".")), ("paragraphs", bool(r.get("more"))), ("nothing after colon", not br)]
                labels |= {t for t, v in hits if v}
                if any(v for _, v in hits[:4]) or n > 50:
                    labels.add("nontrivial")
    for e in exp.entities:
        for fl in e["fields"]:
            labels.add("brief" if "brief" in fl else "no brief")
    return labels


o = strat.Opt(name=strat.struct_name(), vname=strat.value_name(), rows=(1, 6), xmax=1, free_desc=True)
SUBS = [Sub("briefs", cases(o, 1, 2), run, 4500)]
