from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import Sub, judging, same

RULE = "a figure with a changed column order, an additional column, or a header spelled differently"


def variant(fig, v):
    """the figure with its columns rearranged, respelled and interspersed with further ones"""
    cols = [list(c) for c in fig["cols"]]
    for c, sp in zip(cols, v["spell"]):
        c[1] = respell(c[1], sp)
    order = v["order"][: len(cols)]
    cols = [cols[i] for i in sorted(range(len(cols)), key=lambda i: order[i])]
    i, j = ([k for k, c in enumerate(cols) if c[0] == r] for r in ("attr", "desc"))
    if i and i[0] > j[0]:
        # names come from an attribute column preceding the description
        cols[i[0]], cols[j[0]] = cols[j[0]], cols[i[0]]
    nx = 0
    for pos, h in v["extra"]:
        cols.insert(pos % (len(cols) + 1), ["x", h])
        nx += 1
    for pos, k in v["rival"]:
        # further columns which could provide the same, had they come first
        has = {header_norm(c[1]) for c in cols} | {"code" if "value" in {header_norm(c[1]) for c in cols} else ""}
        rivals = [h for h in RIVALS[fig["t"]] if h.lower() not in has]
        if rivals:
            lo = 1 + max(n for n, c in enumerate(cols) if c[0] != "x")
            cols.insert(lo + pos % (len(cols) + 1 - lo), ["x", rivals[k % len(rivals)]])
            nx += 1
    rows = []
    for k, r in enumerate(fig["rows"]):
        r = dict(r)
        if r["r"] in ("f", "res", "ellkey", "elllab", "bad"):
            r["x"] = [v["fill"][(k + m) % len(v["fill"])] for m in range(nx)]
        rows.append(r)
    return dict(fig, cols=cols, rows=rows)


RIVALS = {
    "values": ["Description", "Definition", "Power Scope", "Attribute", "Bits", "Values", "Value"],
    "bits": ["Attribute", "Definition", "Power Scope"],
    "bytes": ["Attribute", "Definition", "Value", "Values", "Bits", "Power Scope"],
}


def header_norm(h):
    h = " ".join(h.lower().split())
    return {"code": "value", "bit": "bits", "byte": "bytes"}.get(h, h)


def respell(h, sp):
    odd = {"Value": "Code", "Bits": "Bit", "Bytes": "Byte"}.get(h)
    if sp["odd"] and odd:
        h = odd
    out = "".join(c.upper() if (sp["case"] >> i) & 1 else c.lower() for i, c in enumerate(h))
    out = out.replace(" ", sp["gap"])
    return sp["pad"][0] + out + sp["pad"][1]


def run(case):
    base, v = case["fig"], case["variant"]
    var = variant(base, v)
    doc = {"spec": "S", "rev": "1"}
    a = sut.model_ok(render.html(dict(doc, figs=[base]), case["style"]))
    b = sut.model_ok(render.html(dict(doc, figs=[var]), case["style"]))
    exp = model.expect(dict(doc, figs=[var]))
    with judging("model"):
        same(b.entities, a.entities, "entities with rearranged or respelled columns")
        same([e["type"] for e in a.entities], [base["t"]], "figures extracted")
        same([d for d in b.lint if d["code"] != "T1006"], a.lint, "lint with rearranged or respelled columns")
        same(model.lint_bag(b.lint, {"T1006"}, ctx=True), model.lint_bag(exp.lint, {"T1006"}, ctx=True), "non-standard headers reported")
    labels = {base["t"]}
    if [c[0] for c in var["cols"]] != [c[0] for c in base["cols"]]:
        labels |= {"nontrivial", "columns differ", f"columns {len(var['cols'])}"}
    if {c[1] for c in base["cols"]} - {c[1] for c in var["cols"]}:
        labels |= {"nontrivial", "spelling differs"}
    if v["rival"]:
        labels.add("rival columns")
    if len(v["extra"]):
        labels.add("additional columns")
    if b.lint != a.lint:
        labels.add("reported header")
    if any(c[0] == "attr" for c in base["cols"]):
        labels.add("attribute column")
    return labels


spell = st.fixed_dictionaries({
    "odd": strat.chance(1, 4), "case": st.integers(0, 2**12), "gap": st.sampled_from([" ", "  ", "\n", "\n   ", " \n ", "\t", "\u00a0", "\n\t", " \u00a0"]),
    "pad": st.tuples(st.sampled_from(["", " ", "\n", "  \n"]), st.sampled_from(["", " ", "\n", "\n  "])).map(list),
})
extra_h = st.one_of(st.sampled_from(strat.XH), st.sampled_from(["Bits Used", "Byte Offset", "Valuable", "Descriptions", "Codes", "Default", "Attributes", "Notes"]),
                    strat.phrase(strat.T_CLEAN, 2, 3))
# "figure" in a header row is no caption, the caption row precedes it
variants = st.fixed_dictionaries({
    "spell": st.lists(spell, min_size=3, max_size=3),
    "order": st.permutations([0, 1, 2]).map(list),
    "extra": st.lists(st.tuples(st.integers(0, 7), extra_h).map(list), max_size=4),
    "rival": st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 11)).map(list), min_size=1, max_size=2)),
    "fill": st.lists(strat.any_text, min_size=1, max_size=3),
})


@st.composite
def cases(draw):
    o = strat.Opt(rows=(1, 5), xmax=0, name=strat.struct_name(), vname=strat.value_name())
    f = draw(strat.figure_body(o))
    f.update(id="3", cap="Figure 3: Roles")
    style = draw(strat.styles)
    if style["ws"] == 0:
        style["ws"] = 1
    style["split"] = 0
    return {"fig": f, "variant": draw(variants), "style": style}


SUBS = [Sub("columns", cases(), run, 3000)]
