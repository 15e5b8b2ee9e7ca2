from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.judge import SEP, figs_of, obsolete_dup

RULE = "a document with a figure that a built-in correction is meant for, under its own or another title"

CODES4 = ["00b", "01b", "10b", "11b"]
POWER = ["none", "idle", "normal", "low"]
KINDS = {
    "nvm": ("NVM Express® NVM Command Set Specification", ["1.0c"],
            {"names": {(f, v): n for f in ("42_4", "49_0_4", "64_0_4") for v, n in zip(CODES4, POWER)}, "glue": {"23": "24"}}),
    "zoned": ("NVM Express® Zoned Namespace Command Set Specification", ["1.1c"],
              {"names": {("37", "0"): "zt", ("37", "1"): "zs", ("37", "2"): "za"}}),
    "mi": ("NVM Express® Management Interface Specification", ["1.2c"],
           {"names": {("19", "2"): "misc"}, "glue": {"64": "65"}}),
    "kv": ("NVM Express® Key Value Command Set Specification", ["1.0c", "1.0"], {"ignore": {"41"}}),
}
SUFFIX = [".1", "-2024.01.01", " ", "0", "1", "c", "-draft", " ratified"]
REVS = ["1.0", "1.0a", "1.0b", "1.0c", "1.0d", "1.1", "1.1c", "1.1b", "1.2c", "1.2", "2.0c", "1.0c 1"]


def quirk_of(spec, rev):
    for t, revs, q in KINDS.values():
        if spec.lower() == t.lower() and rev.lower() in revs:
            return q
    return None


def run(case):
    doc, style = case["doc"], case["style"]
    q = quirk_of(doc["spec"], doc["rev"])
    o = sut.model_ok(render.html(doc, style))
    exp = model.expect(doc, SEP[style["ws"]], q)
    got, want = ([model.canon_entity(e) for e in x] for x in (o.entities, exp.entities))
    same([[e["fig_id"], e["type"]] for e in got], [[e["fig_id"], e["type"]] for e in want], "entities")
    for g, w in zip(got, want):
        same(g, w, f"entity {w['fig_id']}")
    wrong = getattr(exp, "unordered", set())

    def drop(d):
        return obsolete_dup(d) or d["code"] == "L1002" and d["fig"] in wrong

    same(model.lint_bag(o.lint, drop=drop), model.lint_bag(exp.lint, drop=drop), "lint")
    tables = {"T1000", "T1006", "T1007", "T1008"}
    same(model.lint_bag(o.lint, tables, ctx=True), model.lint_bag(exp.lint, tables, ctx=True), "lint on tables")
    labels = {"corrected title" if q is not None else "other title"}
    if any(f.get("special") for f in doc["figs"]):
        labels.add("nontrivial")
    for f in doc["figs"]:
        if f.get("special"):
            labels.add(f["special"] + (" under its title" if q is not None and q is KINDS[f["of"]][2] else " elsewhere"))
    labels |= {"lint " + d["code"] for d in exp.lint if d["code"] in ("L1007", "T1000")}
    if q is not None and doc["spec"] != doc["spec"].title():
        labels.add("letter case")
    return labels


EXPECT = {
    "nvm": ({"23", "24", "42_4"}, {("42_4", v): n for v, n in zip(CODES4, POWER)}, ["23", "24"]),
    "zoned": ({"37"}, {("37", str(i)): n for i, n in enumerate(("zt", "zs", "za"))}, ["37"]),
    "mi": ({"19", "64", "65"}, {("19", "2"): "misc"}, ["19", "64", "65"]),
    "kv": ({"41"}, {}, ["41"]),
}


def run_example(case):
    """The published specifications, as they are and under another revision."""
    of = case["spec"]
    title, revs, _ = KINDS[of]
    words = {"nvm": "NVM Command Set", "zoned": "Zoned", "mi": "Management", "kv": "Key Value"}[of]
    src = next(p for p in sut.examples() if words in p.name)
    text = src.read_text(encoding="utf-8")
    import re

    outs = []
    with sut.Dir() as d:
        for n, rev in (("a", case["rev"]), ("b", "9.9")):
            t, k = re.subn(r'data-revision="[^"]*"', f'data-revision="{rev}"', text, count=1)
            assert k == 1
            (d / f"{n}.html").write_text(t, encoding="utf-8")
            (d / n).mkdir()
            outs.append(sut.process(d / f"{n}.html", d / n))
            need(outs[-1].exc is None, f"{src.name} as revision {rev}: processing failed: {outs[-1].exc!r}")
    a, b = outs
    ids, names, present = EXPECT[of]

    def corrected(fid):
        return any(fid == i or fid.startswith(i + "_") for i in ids)

    with judging("model"):
        for what, x, y, k in (("entities", a.entities, b.entities, "fig_id"), ("lint", a.lint, b.lint, "fig")):
            same([e for e in x if not corrected(e[k])], [e for e in y if not corrected(e[k])], f"{what} of the figures of {src.name} no correction is meant for")
        same(sorted((d["fig"], d["row"]) for d in a.lint if d["code"] == "L1007"), sorted(names), f"names given by hand in {src.name}")
        same([d for d in b.lint if d["code"] == "L1007"], [], "names given by hand under another revision")
        by = {e["fig_id"]: e for e in a.entities}
        for i in present:
            need(i in by, f"figure {i} is missing from the model of {src.name}")
        for (fid, key), name in names.items():
            got = [f["label"] for f in by[fid]["fields"] if key == (f["val"] if "val" in f else str(f["range"]["low"]) if isinstance(f["range"], dict) else f["range"])]
            same(got, [name], f"name of {key} in figure {fid} of {src.name}")
        order = [e["fig_id"] for e in a.entities if e["fig_id"] in ids]
        need([i for i in order if i in present] == present, f"corrected figures of {src.name} are in the order {order}")
    return {"nontrivial", of}


def example_cases(tier):
    return [{"spec": k, "rev": r} for k, (_, revs, _) in KINDS.items() for rev in revs for r in (rev, rev.upper())]


BASE = dict(brief=strat.brief_text(), more=False, contiguous=True, rawkeys=False, dynamic=False, xmax=1)


def calm(fig):
    """Only rows whose meaning no correction is concerned with."""
    fig["rows"] = [r for r in fig["rows"] if r["r"] not in ("com", "notes", "elllab", "ellkey")]
    return fig


@st.composite
def body(draw, t, lo=1, hi=4, attr=None, nested=1):
    o = strat.Opt(rows=(lo, hi), types=(t,), attr=attr, nested=nested, **BASE)
    return calm(draw(strat.figure_body(o)))


@st.composite
def glued(draw, of, a, b):
    f = draw(body("bits"))
    if draw(strat.chance(4, 5)):
        g = draw(body("bits"))
        # both share the columns of the table
        if [c[0] for c in g["cols"]] != [c[0] for c in f["cols"]]:
            g = draw(body("bits", attr=any(c[0] == "attr" for c in f["cols"]), nested=0))
            g["cols"] = f["cols"]
            nx = sum(c[0] == "x" for c in f["cols"])
            for r in g["rows"]:
                if r["r"] == "f":
                    r["x"] = ["x"] * nx
        g["cols"] = f["cols"]
        g["id"], g["cap"] = b, f"Figure {b}" + draw(st.sampled_from([": ", ": ", " : ", " – ", ":", ""])) + draw(strat.clean_name())
        if draw(strat.chance(1, 6)):
            g["cap"] = f"Figure {b}"
        f["glue"] = g
    f.update(id=a, special="glued", of=of)
    return f


def key(lo):
    return {"t": str(lo), "lo": lo, "hi": lo}


@st.composite
def named_rows(draw, of, fid, keys, types):
    """rows at the offsets or values that get names by hand"""
    t = draw(st.sampled_from(types))
    o = strat.Opt(rows=(1, 1), types=(t,), odd_rows=False, nested=0, **BASE)
    cols = draw(strat.columns(t, attr=False, xmax=0))
    rows = []
    for k in draw(st.lists(st.sampled_from(keys + ["3", "7"]), min_size=1, max_size=5, unique=draw(strat.chance(3, 4)))):
        kk = {"t": k} if t == "values" else key(int(k)) if draw(strat.chance(4, 5)) else {"t": f"{int(k) + 3}:0{k}", "lo": int(k), "hi": int(k) + 3}
        if draw(strat.chance(1, 8)) and (t != "values" or k not in keys):
            # (which prevails in a value table is not claimed)
            rows.append({"r": "res", "key": kk, "word": "Reserved"})
            continue
        r = draw(strat.named_row(o, t, kk, cols))
        if t != "values" and draw(strat.chance(1, 3)):
            r["sub"], r["subonly"] = [draw(body("bits", nested=0)) for _ in range(draw(st.integers(1, 2)))], True
        rows.append(r)
    return {"t": t, "cols": cols, "rows": rows, "id": fid, "special": "named by hand", "of": of}


@st.composite
def power(draw, fid):
    """value tables within structures, as the NVM command set has them"""
    o = strat.Opt(rows=(1, 1), types=("values",), odd_rows=False, nested=0, **BASE)
    cols = draw(strat.columns("values", attr=False, xmax=0))
    ks = draw(st.lists(st.sampled_from(CODES4 + ["1b", "00B", "100b"]), min_size=1, max_size=5, unique=True))
    cur = {"t": "values", "cols": cols, "rows": [draw(strat.named_row(o, "values", {"t": k}, cols)) for k in ks]}
    path = [4] if fid == "42" else draw(st.sampled_from([[4], [0, 4], [0, 4], [0, 4], [4, 0]]))
    for k in reversed(path):
        f = {"t": "bits", "cols": [["key", "Bits"], ["desc", "Description"]], "rows": []}
        rows = [draw(strat.named_row(o, "bits", key(k + 8), f["cols"])), draw(strat.named_row(o, "bits", key(k), f["cols"]))]
        rows[1]["sub"], rows[1]["br"] = [cur], draw(strat.long_brief())
        f["rows"] = rows
        cur = f
    cur.update(id=fid, special="named by hand", of="nvm")
    return cur


@st.composite
def commented(draw):
    f = draw(body("bytes"))
    n = len(f["rows"])
    text = draw(strat.sentence()) + " (refer to Figure 39)."
    row = {"r": "com", "text": text}
    if f["cols"][0][0] == "key" and f["cols"][-1][0] == "desc" and draw(strat.chance(3, 4)):
        if len(f["cols"]) == 2:
            f["cols"].insert(1, ["x", "Type"])
            for r in f["rows"]:
                r["x"] = ["x"]
        # not quite spanning the table, so that the offset cell is there
        row = {"r": "com2", "text": text if draw(strat.chance(2, 3)) else text[: -draw(st.integers(1, 6))], "n": len(f["cols"])}
    f["rows"].insert(draw(st.integers(0, n)), row)
    f.update(id="41", special="comment row", of="kv")
    return f


SPECIAL = [
    glued("nvm", "23", "24"), glued("mi", "64", "65"),
    named_rows("zoned", "37", ["0", "1", "2"], ["bytes", "bytes", "values", "bits"]), named_rows("mi", "19", ["2"], ["bytes", "bytes", "values"]),
    power("42"), power("49"), power("64"), commented(),
]


def swap(t, bits):
    return "".join(c.upper() if bits >> (i % 30) & 1 else c.lower() for i, c in enumerate(t))


@st.composite
def cases(draw):
    figs, used = [], set()
    for _ in range(draw(st.integers(1, 3))):
        f = draw(st.sampled_from(SPECIAL).flatmap(lambda s: s))
        if f["id"] not in used:
            used.add(f["id"])
            figs.append(f)
    of = draw(st.sampled_from([f["of"] for f in figs]))
    for _ in range(draw(st.integers(0, 2))):
        o = strat.Opt(rows=(1, 3), nested=1, **BASE)
        f = draw(strat.figure_body(o))
        f["id"] = draw(st.sampled_from(["22", "24", "3", "41_1", "37A", "1", "64.1", "65", "230"]))
        if f["id"] not in used:
            used.add(f["id"])
            figs.append(f)
    figs = draw(st.permutations(figs))
    # now and then a figure fails on a row of its own
    figs = [draw(strat.break_fig(f)) if f.get('special') in ('glued', 'comment row') and draw(strat.chance(1, 6)) else f for f in figs]
    for f in figs:
        f["cap"] = f"Figure {f['id']}: " + draw(strat.clean_name())
    k = draw(st.integers(0, 9))
    spec, revs, _ = KINDS[of]
    rev = draw(st.sampled_from(revs))
    if k == 7:
        rev = draw(st.sampled_from(REVS)) if draw(st.booleans()) else draw(st.sampled_from(["", "", "v", "0", "1."])) + rev + draw(st.sampled_from(SUFFIX))
    elif k == 8:
        spec = draw(st.sampled_from([x[0] for x in KINDS.values()]))
    elif k == 9:
        spec = draw(st.sampled_from([spec.replace("®", ""), spec + " ", spec[:-1], spec + "s", spec.replace(" Spec", "  Spec"), "Generic Specification", "NVM Express Base Specification"]))
    if draw(st.booleans()):
        spec, rev = swap(spec, draw(st.integers(0, 2**30 - 1))), swap(rev, draw(st.integers(0, 15)))
    return {"doc": {"spec": spec, "rev": rev, "figs": figs}, "style": draw(strat.styles)}


SUBS = [Sub("titles", cases(), run, 2400), Sub("examples", None, run_example, 0, enum=example_cases)]
