"""Builds docx files from a description, reads the converted HTML and CSS back,
and says what the former must look like in the latter.

doc    {"head": [[text of a run]...] one list per paragraph, "styles": [STYLE],
        "nums": None | {"abs": [[id, [[fmt|None, text|None] or None...]]], "map": [[num id, abstract id]]},
        "body": [["p", ITEMS, None] | ["t", TABLE] | ["sdt", TABLE]]}
STYLE  {"id", "alias": [..], "base": id|None, "f": FMT|None}
TABLE  {"rows": n, "cells": [{"x", "y", "w", "h", "shd", "b": [BLOCK], "in": wrapper, "bw": BLOCKWRAPS}], "in": {row: wrapper}}  a partition of the grid
BLOCK  ["p", ITEMS, NUM|None] | ["t", TABLE]        NUM: [num id, level|None]
BLOCKWRAPS [[first block, number of blocks, wrapper | "bm" (a bookmark before it)]]
ITEM   {"k": "r"|"link"|"fld"|"noise", "s": [["t", text] | ["tab"] | ["br"] | ["cr"] | ["noBreakHyphen"]], "f": FMT|None,
        "m": a run for each of s, "in": wrappers around it, "in2": wrapper inside a link or field}
FMT    {"b", "i", "strike": "" or an on/off word, "u": word, "va": word, "color", "style", "sz"}
"""
import io
import re
import zipfile
from xml.sax.saxutils import escape, quoteattr

from vlib.core import Violation

NS = ('xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" '
      'xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"')
OFF = ("0", "false", "off")
NOISE = ['<w:proofErr w:type="spellStart"/>', '<w:bookmarkStart w:id="3" w:name="x"/>', '<w:bookmarkEnd w:id="3"/>',
         '<w:r><w:fldChar w:fldCharType="begin"/></w:r>', '<w:r><w:instrText xml:space="preserve"> REF x </w:instrText></w:r>',
         '<w:r><w:rPr><w:b/></w:rPr></w:r>', '<w:r><w:lastRenderedPageBreak/></w:r>', '<w:r><w:t></w:t></w:r>',
         '<w:del w:id="1"><w:r><w:delText>gone</w:delText></w:r></w:del>', '<!-- c -->', '<w:hyperlink r:id="x"/>',
         '<w:moveFrom w:id="1"><w:r><w:t>gone</w:t></w:r></w:moveFrom>', '<w:sdt><w:sdtPr><w:id w:val="1"/></w:sdtPr><w:sdtContent/></w:sdt>',
         '<w:ins w:id="4"><w:del w:id="5"><w:r><w:delText>gone</w:delText></w:r></w:del></w:ins>', '<w:r><w:softHyphen/></w:r>']
WRAP = {"ins": ('<w:ins w:id="7" w:author="a" w:date="2020-01-01T00:00:00Z">', "</w:ins>"), "moveTo": ('<w:moveTo w:id="8">', "</w:moveTo>"),
        "smart": ('<w:smartTag w:element="x">', "</w:smartTag>"), "custom": ('<w:customXml w:element="x"><w:customXmlPr/>', "</w:customXml>"),
        "sdt": ('<w:sdt><w:sdtPr><w:alias w:val="x"/></w:sdtPr><w:sdtContent>', "</w:sdtContent></w:sdt>"),
        "bdo": ('<w:bdo w:val="ltr">', "</w:bdo>")}
BOOKMARK = '<w:bookmarkStart w:id="5" w:name="y"/><w:bookmarkEnd w:id="5"/>'


def wrap(xml, *kinds):
    for k in kinds:
        if k:
            xml = WRAP[k][0] + xml + WRAP[k][1]
    return xml


def fmt_xml(f):
    if f is None:
        return ""
    out = ""
    if "style" in f:
        out += f"<w:rStyle w:val={quoteattr(f['style'])}/>"
    for k in ("b", "i", "strike"):
        if k in f:
            out += f"<w:{k}/>" if f[k] == "" else f'<w:{k} w:val="{f[k]}"/>'
    if "color" in f:
        out += f'<w:color w:val="{f["color"]}"/>'
    if "sz" in f:
        out += f'<w:sz w:val="{f["sz"]}"/>'
    if "u" in f:
        out += f'<w:u w:val="{f["u"]}"/>'
    if "va" in f:
        out += f'<w:vertAlign w:val="{f["va"]}"/>'
    return f"<w:rPr>{out}</w:rPr>"


def run_xml(it):
    if it.get("m"):
        return "".join(run_xml({"s": [s], "f": it.get("f")}) for s in it["s"])
    out = ""
    for s in it["s"]:
        keep = "" if s[0] == "t" and s[1] == s[1].strip() and len(s[1]) % 2 else ' xml:space="preserve"'
        out += f"<w:t{keep}>{escape(s[1])}</w:t>" if s[0] == "t" else f"<w:{s[0]}/>"
    return f"<w:r>{fmt_xml(it.get('f'))}{out}</w:r>"


def para_xml(items, num=None):
    ppr = ""
    if num is not None:
        lvl = "" if num[1] is None else f'<w:ilvl w:val="{num[1]}"/>'
        ppr = f'<w:pStyle w:val="ListParagraph"/><w:numPr>{lvl}<w:numId w:val="{num[0]}"/></w:numPr>'
    if len(items) % 2:
        ppr += "<w:rPr><w:b/><w:i/></w:rPr>"  # of the paragraph mark, not of the text
    out = f"<w:pPr>{ppr}</w:pPr>" if ppr else ""
    for it in items:
        k = it["k"]
        if k == "noise":
            x = NOISE[it["n"] % len(NOISE)]
        elif k == "link":
            x = f'<w:hyperlink r:id="rId9">{wrap(run_xml(it), it.get("in2"))}</w:hyperlink>'
        elif k == "fld":
            x = f'<w:fldSimple w:instr=" SEQ x ">{wrap(run_xml(it), it.get("in2"))}</w:fldSimple>'
        else:
            x = run_xml(it)
        out += wrap(x, *it.get("in", ()))
    return f"<w:p>{out}</w:p>"


def table_xml(t):
    ncol = max((c["x"] + c["w"] for c in t["cells"]), default=1)
    grid = '<w:gridCol w:w="100"/>' * ncol
    out = f'<w:tbl><w:tblPr><w:tblStyle w:val="x"/></w:tblPr><w:tblGrid>{grid}</w:tblGrid>'
    for y in range(t["rows"]):
        tr = "<w:tr><w:trPr><w:cantSplit/></w:trPr>"
        for c in sorted((c for c in t["cells"] if c["y"] <= y < c["y"] + c["h"]), key=lambda c: c["x"]):
            first = c["y"] == y
            pr = '<w:tcW w:w="5" w:type="dxa"/>'
            if c["w"] > 1 or c.get("one"):
                pr += f'<w:gridSpan w:val="{c["w"]}"/>'
            if first and (c["h"] > 1 or c.get("one")):
                pr += '<w:vMerge w:val="restart"/>'
            elif not first:
                pr += '<w:vMerge w:val="continue"/>' if c.get("cont") else "<w:vMerge/>"
            shd = c.get("shd") if first else c.get("shd2")
            if shd is not None:
                pr += f'<w:shd w:val="clear" w:color="auto" w:fill="{shd}"/>'
            blocks = blocks_xml(c["b"], c.get("bw", ())) if first else ""
            if not blocks.endswith("</w:p>"):
                blocks += "<w:p/>"  # a cell ends with a paragraph
            tr += wrap(f"<w:tc><w:tcPr>{pr}</w:tcPr>{blocks}</w:tc>", c.get("in"))
        out += wrap(tr + "</w:tr>", t.get("in", {}).get(str(y)))
    return out + "</w:tbl>"


def blocks_xml(bs, wraps):
    out = [block_xml(b) for b in bs]
    for i, n, kind in wraps:
        part = [x for x in out[i:i + n] if x is not None]
        if kind == "bm":
            part = [BOOKMARK + "".join(part)]
        elif part:
            part = [wrap("".join(part), kind)]
        out[i:i + n] = part + [""] * (len(out[i:i + n]) - len(part))
    return "".join(out)


def block_xml(b):
    if b[0] == "p":
        return para_xml(b[1], b[2])
    if b[0] == "sdt":
        return f"<w:sdt><w:sdtContent>{table_xml(b[1])}</w:sdtContent></w:sdt>"
    return table_xml(b[1])


def build(doc):
    parts = {"word/document.xml": f'<w:document {NS}><w:body>{"".join(block_xml(b) for b in doc["body"])}<w:sectPr/></w:body></w:document>'}
    head = "".join("<w:p>" + "".join(run_xml({"s": [["t", r]]}) for r in p) + "</w:p>" for p in doc["head"])
    parts["word/header1.xml"] = f"<w:hdr {NS}>{head}</w:hdr>"
    st = '<w:style w:type="paragraph" w:styleId="ListParagraph"><w:rPr><w:i/></w:rPr></w:style>'
    for s in doc.get("styles", []):
        alias = f'<w:aliases w:val={quoteattr((", " if len(s["id"]) % 2 else ",").join(s["alias"]))}/>' if s.get("alias") else ""
        base = f'<w:basedOn w:val={quoteattr(s["base"])}/>' if s.get("base") else ""
        st += (f'<w:style w:type="character" w:styleId={quoteattr(s["id"])}><w:name w:val={quoteattr(s["id"] + " x")}/>'
               f'{alias}{base}{fmt_xml(s.get("f"))}</w:style>')
    parts["word/styles.xml"] = f"<w:styles {NS}>{st}</w:styles>"
    if doc.get("nums"):
        n = ""
        for aid, lvls in doc["nums"]["abs"]:
            n += f'<w:abstractNum w:abstractNumId="{aid}"><w:multiLevelType w:val="hybridMultilevel"/>'
            for i, lvl in enumerate(lvls):
                if lvl is None:
                    continue
                fmt = f'<w:numFmt w:val="{lvl[0]}"/>' if lvl[0] is not None else ""
                txt = f"<w:lvlText w:val={quoteattr(lvl[1])}/>" if lvl[1] is not None else ""
                n += f'<w:lvl w:ilvl="{i}"><w:start w:val="1"/>{fmt}{txt}</w:lvl>'
            n += "</w:abstractNum>"
        for nid, aid in doc["nums"]["map"]:
            n += f'<w:num w:numId="{nid}"><w:abstractNumId w:val="{aid}"/></w:num>'
        parts["word/numbering.xml"] = f"<w:numbering {NS}>{n}</w:numbering>"
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for name, xml in parts.items():
            z.writestr(zipfile.ZipInfo(name), '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n' + xml)
    return buf.getvalue()


# -- what it must become -----------------------------------------------------------


def onoff(v):
    return v not in OFF


def lvl_of(b):
    return b[2][1] or 0


class Expect:
    def __init__(self, doc):
        self.doc = doc
        self.styles = {s["id"]: s for s in doc.get("styles", [])}
        self.names = {n: s["id"] for s in doc.get("styles", []) for n in [s["id"]] + s.get("alias", [])}
        nums = doc.get("nums") or {"abs": [], "map": []}
        self.abs = {a: lv for a, lv in nums["abs"]}
        self.num = {n: a for n, a in nums["map"]}

    def own(self, f):
        r = {}
        for k in ("b", "i", "strike"):
            if k in f:
                r[k] = onoff(f[k])
        if "u" in f:
            r["u"] = f["u"] != "none"
        if "va" in f:
            r["va"] = f["va"]
        if "color" in f:
            r["color"] = None if f["color"] == "auto" else f["color"].lower()
        return r

    def put(self, r, f):
        r.update(self.own(f))
        if r.get("color", 1) is None:
            del r["color"]
        return r

    def style(self, sid):
        s = self.styles.get(sid, {})
        return self.put(self.style(s["base"]) if s.get("base") else {}, s.get("f") or {})

    def fmt(self, f):
        """settings applying to a run, explicit ones only"""
        if f is None:
            return {}
        return self.put(self.style(self.names.get(f["style"])) if "style" in f else {}, f)

    def runs(self, items):
        """[[text, settings]...] or None for an empty paragraph"""
        if not any(s[0] == "t" and s[1] or s[0] == "noBreakHyphen" for it in items if it["k"] != "noise" for s in it["s"]):
            return None
        out = []
        for it in items:
            if it["k"] == "noise":
                continue
            for ss in [[s] for s in it["s"]] if it.get("m") else [it["s"]]:
                txt = "".join(s[1].replace("\n", " ") if s[0] == "t" else "-" if s[0] == "noBreakHyphen" else " " for s in ss)
                if txt:
                    out.append([txt, self.fmt(it.get("f"))])
        return out

    def is_item(self, b):
        if b[0] != "p" or b[2] is None or b[2][0] not in self.num:
            return False
        lv = self.abs[self.num[b[2][0]]]
        return lvl_of(b) < len(lv) and lv[lvl_of(b)] is not None

    def blocks(self, bs):
        out, i = [], 0
        while i < len(bs):
            b = bs[i]
            if b[0] == "t":
                out.append(["t", self.table(b[1])])
            elif self.is_item(b):
                lst, i = self.list(bs, i)
                out.append(lst)
                continue
            else:
                r = self.runs(b[1])
                if r is not None:
                    out.append(["p", r])
            i += 1
        return out

    def list(self, bs, i):
        """["l", tag, marker, [item]]; item: [runs, [lists]]"""
        aid, lvl = self.num[bs[i][2][0]], lvl_of(bs[i])
        fmt, txt = self.abs[aid][lvl]
        tag = "ol" if txt is not None and txt.startswith("%") else "ul"
        items, last = [], False
        while i < len(bs) and self.is_item(bs[i]) and self.num[bs[i][2][0]] == aid and lvl_of(bs[i]) >= lvl:
            if lvl_of(bs[i]) > lvl:
                sub, i = self.list(bs, i)
                if not last:
                    items.append([[], []])
                items[-1][1].append(sub)
                last = False  # at most one nested list per item
            else:
                items.append([self.runs(bs[i][1]) or [], []])
                last = True
                i += 1
        return ["l", tag, [aid, lvl], items], i

    def table(self, t):
        rows = [[] for _ in range(t["rows"])]
        for c in sorted(t["cells"], key=lambda c: (c["y"], c["x"])):
            shd = c.get("shd")
            col = shd.lower() if shd is not None and len(shd) == 6 and shd.lower() != "ffffff" else None
            grey = col is not None and col[:2] == col[2:4] == col[4:]
            rows[c["y"]].append({"tag": "th" if grey else "td", "cs": c["w"], "rs": c["h"],
                                 "bg": None if grey else col, "b": self.blocks(c["b"])})
        return {"id": self.ident(rows), "rows": rows}

    def ident(self, rows):
        if not rows or not rows[0]:
            return None
        c = rows[0][0]
        if not c["b"] or c["b"][0][0] != "p":
            return None
        m = re.match(r"Figure ([0-9]+):", "".join(r[0] for r in c["b"][0][1]))
        if m and c["tag"] == "th":
            return "?"  # not said
        return m.group(1) if m else None

    def tables(self):
        return [self.table(b[1]) for b in self.doc["body"] if b[0] in ("t", "sdt")]


# -- reading it back ----------------------------------------------------------------


class Css:
    def __init__(self, text):
        text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
        self.rules = []
        pos = 0
        for m in re.finditer(r"([^{}]*)\{([^{}]*)\}", text):
            if text[pos:m.start()].strip():
                raise Violation("CSS file is malformed")
            pos = m.end()
            decl = {}
            for d in m.group(2).split(";"):
                if d.strip():
                    k, sep, v = d.partition(":")
                    if not sep:
                        raise Violation(f"CSS declaration {d!r} is malformed")
                    decl[k.strip()] = v.strip()
            for s in m.group(1).split(","):
                comp = s.split()
                if comp and not any(c in s for c in ":>+~["):
                    self.rules.append(([self.compound(c) for c in comp], decl))
        if text[pos:].strip():
            raise Violation("CSS file is malformed")

    @staticmethod
    def compound(c):
        parts = c.split(".")
        return parts[0] or None, frozenset(parts[1:])

    @staticmethod
    def fits(el, comp):
        return (comp[0] is None or el.tag == comp[0]) and comp[1] <= set((el.get("class") or "").split())

    def matches(self, el, sel):
        if not self.fits(el, sel[-1]):
            return False
        k = len(sel) - 2
        el = el.getparent()
        while k >= 0 and el is not None:
            if self.fits(el, sel[k]):
                k -= 1
            el = el.getparent()
        return k < 0

    def of(self, el):
        """declarations applying to an element itself"""
        found = []
        for n, (sel, decl) in enumerate(self.rules):
            if self.matches(el, sel):
                found.append((sum(len(c[1]) for c in sel), sum(c[0] is not None for c in sel), n, decl))
        out = {}
        for *_, decl in sorted(found, key=lambda f: f[:3]):
            out.update(decl)
        for d in (el.get("style") or "").split(";"):
            k, sep, v = d.partition(":")
            if sep:
                out[k.strip()] = v.strip()
        return out


def blank(t):
    return t is None or not t.strip(" \n\t")


class Read:
    """The tables of a converted document, in the form Expect gives."""

    def __init__(self, html, css):
        from lxml import etree

        if html is None or css is None:
            raise Violation("HTML or CSS file is missing")
        try:
            self.root = etree.fromstring(html)
        except etree.XMLSyntaxError as e:
            raise Violation(f"the HTML file is not well-formed: {e}")
        try:
            self.css = Css(css.decode("utf-8"))
        except UnicodeDecodeError as e:
            raise Violation(f"the CSS file is not UTF-8: {e}")
        self.body = self.root.find("body")
        if self.body is None:
            raise Violation("the HTML file has no body")
        self.classes = []  # (settings, class) of every text
        self.cache = {}

    def tables(self):
        self.stray(self.body)
        out = []
        for e in self.body:
            if e.tag != "table":
                raise Violation(f"unexpected <{e.tag}> between tables")
            out.append(self.table(e))
        return out

    def stray(self, el):
        """nothing but white space directly inside"""
        if not blank(el.text) or any(not blank(c.tail) for c in el):
            raise Violation(f"stray text in <{el.tag}>")

    def table(self, el):
        self.stray(el)
        rows = []
        for tr in el:
            if tr.tag != "tr":
                raise Violation(f"unexpected <{tr.tag}> in a table")
            self.stray(tr)
            row = []
            for td in tr:
                if td.tag not in ("td", "th"):
                    raise Violation(f"unexpected <{td.tag}> in a table row")
                bg = self.css.of(td).get("background-color")
                row.append({"tag": td.tag, "cs": int(td.get("colspan", 1)), "rs": int(td.get("rowspan", 1)),
                            "bg": bg.lower().lstrip("#") if bg else None, "b": self.blocks(td)})
            rows.append(row)
        return {"id": el.get("id"), "rows": rows}

    def blocks(self, td):
        self.stray(td)
        out = []
        for e in td:
            if e.tag == "p":
                out.append(["p", self.runs(e, list(e))])
            elif e.tag == "table":
                out.append(["t", self.table(e)])
            elif e.tag in ("ol", "ul"):
                out.append(self.list(e))
            else:
                raise Violation(f"unexpected <{e.tag}> in a cell")
        return out

    def runs(self, parent, spans):
        if not blank(parent.text):
            raise Violation(f"stray text in <{parent.tag}>")
        out = []
        for i, s in enumerate(spans):
            if s.tag != "span" or len(s):
                raise Violation(f"unexpected <{s.tag}> in a paragraph")
            if s.tail and (i + 1 < len(spans) or not blank(s.tail)):
                raise Violation(f"text {s.tail!r} between the runs of a paragraph")
            cls = s.get("class")
            key = cls, s.get("style")
            if key not in self.cache:
                self.cache[key] = effective(self.css.of(s))
            out.append([s.text or "", self.cache[key], cls])
        return out

    def list(self, el):
        self.stray(el)
        items = []
        for li in el:
            if li.tag != "li":
                raise Violation(f"unexpected <{li.tag}> in a list")
            spans = [c for c in li if c.tag == "span"]
            subs = list(li)[len(spans):]
            if any(c.tag not in ("ol", "ul") or not blank(c.tail) for c in subs):
                raise Violation("items of a list hold something else than text followed by lists")
            items.append([self.runs(li, spans), [self.list(c) for c in subs]])
        depth = 0
        chain = [el.tag]
        p = el.getparent()
        while p is not None and p.tag in ("li", "ol", "ul"):
            if p.tag != "li":
                depth += 1
                chain.append(p.tag)
            p = p.getparent()
        return ["l", el.tag, [self.css.of(el).get("list-style-type"), depth, chain], items]


DECO = ("underline", "line-through")


def effective(d):
    """Formatting as seen by a reader, from declarations."""
    va = {"sub": "subscript", "super": "superscript"}.get(d.get("vertical-align"), "baseline")
    deco = d.get("text-decoration-line", d.get("text-decoration", "")).split()
    w = d.get("font-weight", "normal")
    return {"b": w in ("bold", "bolder") or w.isdigit() and int(w) >= 600, "i": d.get("font-style", "normal") in ("italic", "oblique"),
            "u": "underline" in deco, "strike": "line-through" in deco, "va": va,
            "color": d["color"].lower().lstrip("#") if "color" in d else None}


def seen(settings):
    """As effective(), from explicit settings."""
    s = settings
    return {"b": s.get("b", False), "i": s.get("i", False), "u": s.get("u", False), "strike": s.get("strike", False),
            "va": s.get("va", "baseline"), "color": s.get("color")}


# -- projections ----------------------------------------------------------------------


def text(runs):
    return "".join(r[0] for r in runs)


def paragraphs(table):
    """Texts of a table's cells in order, nested tables as lists."""
    def items(lst, out):
        for runs, subs in lst[3]:
            if runs or not subs:
                out.append(text(runs))
            for s in subs:
                items(s, out)

    rows = []
    for row in table["rows"]:
        cells = []
        for c in row:
            out = []
            for b in c["b"]:
                if b[0] == "p":
                    out.append(text(b[1]))
                elif b[0] == "t":
                    out.append(paragraphs(b[1]))
                else:
                    items(b, out)
            cells.append(out)
        rows.append(cells)
    return rows


def all_runs(table):
    """every paragraph's or item's runs, in order"""
    def items(lst):
        for runs, subs in lst[3]:
            yield runs
            for s in subs:
                yield from items(s)

    for row in table["rows"]:
        for c in row:
            for b in c["b"]:
                if b[0] == "p":
                    yield b[1]
                elif b[0] == "t":
                    yield from all_runs(b[1])
                else:
                    yield from items(b)


def all_tables(tables):
    for t in tables:
        yield t
        for row in t["rows"]:
            for c in row:
                yield from all_tables([b[1] for b in c["b"] if b[0] == "t"])


def structure(table, with_id=True):
    """Cells with tag, spans, background and texts."""
    rows = []
    for row in table["rows"]:
        cells = []
        for c in row:
            sub = [structure(b[1]) for b in c["b"] if b[0] == "t"]
            cells.append([c["tag"], c["cs"], c["rs"], c["bg"], sub])
        rows.append(cells)
    return {"id": table["id"], "rows": rows}
