"""Role-level documents, and what the properties say must come out of them.

A figure is described by what its rows mean, not by text to be parsed:

fig  {"t": "values"|"bits"|"bytes"|"other", "id", "cap", "cols": [[role, header]],
      "rows": [row], "wrap": bool}         role: key, desc, attr, x
row  {"r": "f",  "key": KEY, "nm": NAME, "br": text|None, "more": [paragraph],
      "sub": [fig], "at": ATTR, "x": [text]}                  a named row
     {"r": "res", "key": KEY, "word": "Reserved", "more": [paragraph], ...}
     {"r": "ell"}  a row only holding an ellipsis    {"r": "ellkey"}  with all columns
     {"r": "elllab", "key": KEY}  an elided field with an offset (structures)
     {"r": "com", "text"}  a comment spanning the table
     {"r": "notes", "text"}  notes ending the table
     {"r": "bad", "key", "kind"}  a row which cannot be extracted
  {"r": "th"}  repeated header row    {"r": "list", "text"}  dynamic list begins
KEY  {"t": text} with "hi"/"lo" (numbers) or "dh"/"dl" (formulas) if parseable; "ps": its text in paragraphs
NAME {"n": name, "a": acronym or None}
ATTR {"n": name, "colon": bool, "rest": text}

grid() gives the cells to render, expect() the entities and lint to come out.
"""
import re

ELL = "…"


# -- rendering -----------------------------------------------------------------


def desc_text(row):
    nm = row["nm"]
    t = nm["n"]
    if nm.get("a") is not None:
        t += f"{nm.get('gap', ' ')}({nm['a']})"
    t += nm.get("tail", "")
    if row.get("br") is not None:
        t += ":" + row.get("brsp", " ") + row["br"]
    return t


def attr_text(at):
    return at["n"] + (":" + at.get("sp", " ") + at["rest"] if at["colon"] else "")


def row_blocks(fig, row, ci, role, xi):
    """blocks of the cell in column ci"""
    r = row["r"]
    has_attr = any(c[0] == "attr" for c in fig["cols"])
    if role == "x":
        xs = row.get("x") or []
        b = [xs[xi]] if xi < len(xs) else ["x"]
        sx = row.get("subx")
        if sx and xi == 0:
            b = b + sx
        return b
    if r == "f":
        if role == "key":
            b = list(row["key"].get("ps") or [row["key"]["t"]])
            if row.get("subkey"):
                # nothing claims what a table in the key cell means; not generated
                b += row["subkey"]
            return b
        if role == "desc":
            more, sub = list(row.get("more", [])), list(row.get("sub", [])) + row.get("tail", [])
            if row.get("subonly"):
                return sub + [desc_text(row)] if row.get("last") else sub
            return [desc_text(row)] + (sub + more if row.get("subfirst") else more + sub)
        return [attr_text(row["at"])] + list(row.get("suba", []))
    if r == "res":
        if role == "key":
            return list(row["key"].get("ps") or [row["key"]["t"]])
        if role == "attr":
            return [row["word"]]
        if has_attr:
            return list(row.get("more", [])) or [row["word"]]
        return [row["word"]] + list(row.get("more", []))
    if r == "ellkey":
        return [ELL]
    if r == "elllab":
        return [row["key"]["t"]] if role == "key" else [ELL]
    raise AssertionError(r)


def grid(fig):
    if "grid" in fig:
        return fig["grid"]
    n = max(1, len(fig["cols"]))
    out = []
    rows = fig["rows"]
    if fig.get("glue"):
        # another figure in the same table
        rows = glued_rows(fig)
    for row in rows:
        r = row["r"]
        if r == "ell":
            c = {"b": [ELL]}
            if row.get("cs", True) and n > 1:
                c["cs"] = n
            out.append([c])
        elif r in ("com", "notes"):
            out.append([{"b": [row["text"]] + list(row.get("more", [])), "cs": n if n > 1 else None}])
        elif r == "com2":
            out.append([{"b": [""]}, {"b": [row["text"]], "cs": n - 1}])
        elif r == "list":
            if row.get("multi") and n > 2:
                c = [{"b": [row["text"]], "cs": 2, "tag": "th"}] + [{"b": ["x"], "tag": "th"}] * (n - 2)
                out.append(c[::-1] if row["multi"] == 2 else c)
            else:
                b = list(row.get("pre", [])) + [row["text"]] + list(row.get("post", []))
                out.append([{"b": b, "cs": n, "tag": "th"}])
        elif r == "thlist":  # mentions a list, but does not span columns
            out.append([{"b": ["List of x"], "tag": "th"}] * n)
        elif r == "th":
            out.append([{"b": [h], "tag": "th"} for _, h in fig["cols"]])
        elif r == "bad":
            lab = "attr" if any(c[0] == "attr" for c in fig["cols"]) else "desc"
            cells = []
            for role, _ in fig["cols"]:
                if role == "desc" and row["kind"] == "short":
                    break
                b = [row["key"]["t"]] if role == "key" else ["x"]
                if role == lab:
                    b = [["raw", row["kind"]]] if row["kind"] != "short" else ["x"]
                cells.append({"b": b})
            out.append(cells)
        else:
            cells, xi = [], 0
            for ci, (role, _) in enumerate(fig["cols"]):
                cells.append({"b": row_blocks(fig, row, ci, role, xi)})
                if role == "x":
                    xi += 1
            out.append(cells)
    return out


def glued_rows(fig):
    g = fig["glue"]
    return fig["rows"] + [{"r": "com", "text": g["cap"]}, {"r": "th"}] + g["rows"]


# -- naming --------------------------------------------------------------------


def norm(s):
    s = s.strip().replace("/", "")
    s = "".join("_" if c in " -" else c for c in s)
    while "__" in s:
        s = s.replace("__", "_")
    return s


def initials(s):
    return "".join(w[0] for w in s.split())


def identifier(s):
    return bool(s) and s[0].isascii() and s[0].isalpha() and all(c.isalnum() or c == "_" for c in s)


def struct_label(row, has_attr):
    """(label, [lint codes])"""
    codes = []
    if has_attr:
        at = row["at"]
        if at["colon"]:
            raw = at["n"]
            if " " in raw:
                codes.append("L1004")
        else:
            raw = initials(attr_text(at))
            codes.append("L1003")
    elif row["nm"].get("a") is not None:
        raw = row["nm"]["a"]
    else:
        raw = initials(row["nm"]["n"])
    lab = norm(raw).upper()
    if not identifier(lab):
        codes.append("L1004")
    return lab.lower(), codes


def value_label(row, has_attr):
    codes = []
    if has_attr:
        at = row["at"]
        raw = at["n"].lower()
        if not at["colon"]:
            codes.append("L1003")
    else:
        raw = row["nm"]["n"]
    m = re.match(r"[0-9]+", raw)
    if m:
        rest = raw[m.end():]
        rest = rest.replace(" ", "_").strip("_") if has_attr else rest.strip()
        rest = norm(rest)
        lab = f"{rest}_{m.group(0)}" if rest else m.group(0)
        lab = norm(lab)
    else:
        lab = norm(raw)
    lab = lab.upper()
    if not identifier(lab):
        codes.append("L1004")
    return lab, codes


# -- briefs --------------------------------------------------------------------


def brief_of(row, sep="\n"):
    """Brief of a named row: text after the name in the whole description cell."""
    if row.get("subonly") or row.get("br") is None or not (row["br"] or row.get("more")):
        return None
    txt = sep.join([row["br"]] + list(row.get("more", [])))
    txt = txt.strip()
    whole = txt.rstrip(".")
    if len(whole) <= 60:
        return whole
    first = txt.split(".")[0]
    return first if len(first) <= 60 else None


def squeeze(s):
    return " ".join(s.split()) if isinstance(s, str) else s


# -- expected outcome ----------------------------------------------------------


def key_text(key):
    return " ".join(key["t"].split())


def key_range(key, dynamic):
    if dynamic:
        parts = "".join(key["t"].split()).split(":")
        if len(parts) == 2 and all(p and all(c.isascii() and c.isalnum() or c in "+-*()" for c in p) for p in parts):
            return {"low": parts[1], "high": parts[0]}
        return key["t"]
    if "lo" in key:
        return {"low": key["lo"], "high": key["hi"]}
    nums = [p.strip() for p in key["t"].split(":")]
    if len(nums) <= 2 and all(p.isascii() and p.isdigit() for p in nums):
        return {"low": int(nums[-1]), "high": int(nums[0])}
    return key["t"]


class Broken(Exception):
    reported = False


class Exp:
    def __init__(self, sep="\n", quirk=None):
        self.entities, self.lint, self.sep = [], [], sep
        q = quirk or {}
        self.names, self.glue, self.ignore = q.get("names", {}), q.get("glue", {}), q.get("ignore", ())

    def rows(self, fig, fid):
        if fig.get("glue") and self.glue.get(fid) != fig["glue"]["id"]:
            return glued_rows(fig)
        # texts in several paragraphs
        return [dict(r, key=dict(r["key"], t=self.sep.join(r["key"]["ps"]))) if "ps" in r.get("key", ()) else r for r in fig["rows"]]

    def add(self, code, fig, row=None, **ctx):
        d = {"code": code, "fig": fig}
        if row is not None:
            d["row"] = row
        if ctx:
            d["context"] = ctx
        self.lint.append(d)

    def figure(self, fig, fid, parent=None, title=None):
        for _, h in fig["cols"]:
            hn = " ".join(h.lower().split())
            if hn in ("code", "bit", "byte"):
                self.add("T1006", fid, got=hn, expected={"code": "value", "bit": "bits", "byte": "bytes"}[hn])
        if fig["t"] == "other":
            self.add("T1007", fid, columns=[header_norm(h) for _, h in fig["cols"]])
            return
        ent = {"fig_id": fid, "type": fig["t"]}
        if parent is not None:
            ent["parent_fig_id"] = parent
        if title is not None:
            ent["title"] = title
        try:
            fields = self.values(fig, fid) if fig["t"] == "values" else self.struct(fig, fid)
        except Broken as b:
            if not b.reported:
                b.reported = True
                ctx = {"title": title} if title is not None else {}
                self.add("T1000", fid, **ctx)
            if parent is not None:
                raise
            return
        ent["fields"] = fields
        self.entities.append(ent)
        if fig.get("glue") and self.glue.get(fid) == fig["glue"]["id"]:
            self.figure(fig["glue"], fig["glue"]["id"], title=fig["glue"]["cap"])

    def subs(self, row, fid, key):
        for sub in row.get("sub", []):
            self.figure(sub, f"{fid}_{key}", parent=fid)

    def values(self, fig, fid):
        has_attr = any(c[0] == "attr" for c in fig["cols"])
        fields = []
        for row in self.rows(fig, fid):
            r = row["r"]
            if r in ("ell", "ellkey"):
                fields.append({"val": ELL, "label": ELL})
            elif r == "notes":
                break
            elif r in ("th", "thlist", "list", "com"):
                continue
            elif r == "bad":
                raise Broken()
            elif r == "res":
                fields.append({"val": row["key"]["t"].lower(), "label": "RESERVED"})
            else:
                val = row["key"]["t"].lower()
                label, codes = self.names.get((fid, val)), ["L1007"]
                if label is None:
                    label, codes = value_label(row, has_attr)
                for c in codes:
                    self.add(c, fid, val)
                f = {"val": val, "label": label}
                b = brief_of(row, self.sep)
                if b is not None:
                    f["brief"] = b
                self.subs(row, fid, val)
                fields.append(f)
        labels, vals = set(), set()
        for f in fields:
            if f["label"] in ("RESERVED", ELL):
                continue
            if f["label"] in labels:
                self.add("L1002", fid, f["val"], label=f["label"])
            labels.add(f["label"])
            if f["val"] in vals:
                self.add("V1002", fid, f["val"])
            vals.add(f["val"])
        return fields

    def struct(self, fig, fid):
        has_attr = any(c[0] == "attr" for c in fig["cols"])
        fields, dynamic = [], False
        for row in self.rows(fig, fid):
            r = row["r"]
            if r == "ell":
                fields.append({"range": {"low": -1, "high": -1}, "label": ELL})
            elif r in ("th", "thlist", "com", "ellkey"):
                continue
            elif r == "list":
                dynamic = dynamic or "List" in row["text"]
            elif r == "notes":
                break
            elif r == "com2":
                if fid not in self.ignore or not row["text"].endswith("(refer to Figure 39)."):
                    raise Broken()
            elif r == "bad":
                raise Broken()
            else:
                # reserved and elided fields of dynamic lists keep plain offsets
                rng = key_range(row["key"], dynamic and r == "f")
                if isinstance(rng, str):
                    self.add("R1001", fid, row["key"]["t"])
                elif isinstance(rng["low"], int) and rng["low"] > rng["high"]:
                    self.add("R1002", fid, row["key"]["t"])
                if r == "res":
                    fields.append({"range": rng, "label": row["word"].upper()})
                elif r == "elllab":
                    fields.append({"range": rng, "label": ELL})
                else:
                    key = str(rng["low"]) if isinstance(rng, dict) else rng
                    label, codes = self.names.get((fid, key)), ["L1007"]
                    if label is None:
                        if row.get("subonly") and not has_attr:
                            raise Broken()
                        label, codes = struct_label(row, has_attr)
                    for c in codes:
                        self.add(c, fid, key)
                    f = {"range": rng, "label": label}
                    b = brief_of(row, self.sep)
                    if b:
                        f["brief"] = b
                    self.subs(row, fid, key)
                    fields.append(f)
        if fig["t"] == "bits":
            fields.reverse()
        self.layout(fields, fid)
        return fields

    def layout(self, fields, fid):
        def rk(f):
            return str(f["range"]["low"]) if isinstance(f["range"], dict) else f["range"]

        def iv(f):
            if f["label"] == ELL or not isinstance(f["range"], dict) or not isinstance(f["range"]["low"], int):
                return None
            return f["range"]["low"], f["range"]["high"]

        pairs = [(iv(a), iv(b), b) for a, b in zip(fields, fields[1:])]
        pairs = [p for p in pairs if p[0] is not None and p[1] is not None]
        if any(a[0] > b[0] for a, b, _ in pairs):
            self.add("T1004", fid)
            self.unordered = getattr(self, "unordered", set()) | {fid}
            return
        for a, b, f in pairs:
            if b[0] <= a[1]:
                self.add("T1001", fid, rk(f))
            elif b[0] != a[1] + 1:
                self.add("T1002", fid, rk(f))
        seen = set()
        for i, f in enumerate(fields):
            if f["label"] in seen and f["label"] not in ("RESERVED", ELL):
                self.add("L1002", fid, rk(f), label=f["label"])
            seen.add(f["label"])


def header_norm(h):
    h = " ".join(h.lower().split())
    return {"code": "value", "bit": "bits", "byte": "bytes"}.get(h, h)


def expect(doc, sep="\n", quirk=None):
    """Exp with .entities and .lint for a document of well-formed figures."""
    e = Exp(sep, quirk)
    missing = 0
    for fig in doc["figs"]:
        if fig.get("skip"):  # no caption: not a figure
            continue
        title = sep.join(c for c in fig["cap"] if isinstance(c, str)) if isinstance(fig["cap"], list) else fig["cap"]
        if fig.get("id") is None:
            e.add("T1008", f"FIG_ID_MISSING[{missing}]", title=title)
            missing += 1
            continue
        e.figure(fig, fig["id"], title=title)
    return e


# -- comparing -----------------------------------------------------------------


def canon_entity(ent, briefs=True, labels=True):
    d = {k: v for k, v in ent.items() if k != "fields"}
    if isinstance(d.get("title"), str):
        d["title"] = squeeze(d["title"])
    fs = []
    for f in ent.get("fields", []):
        f = dict(f)
        if not briefs:
            f.pop("brief", None)
        elif "brief" in f:
            f["brief"] = squeeze(f["brief"])
        if not labels:
            f.pop("label", None)
        if isinstance(f.get("range"), str):
            f["range"] = squeeze(f["range"])
        fs.append(f)
    d["fields"] = fs
    return d


def lint_bag(lint, codes=None, ctx=False, drop=lambda d: False):
    """Lint entries as a sorted list of comparable tuples."""
    out = []
    for d in lint:
        if codes is not None and d["code"] not in codes or drop(d):
            continue
        t = [d["code"], squeeze(d["fig"]), squeeze(d.get("row"))]
        if ctx:
            c = d.get("context") or {}
            t.append({k: squeeze(v) if isinstance(v, str) else v for k, v in c.items()})
        out.append(t)
    return sorted(out, key=repr)
