"""Odd but well-formed HTML models, and random damage to given ones."""
from html import escape

CAPS = ["Figure {}: Commands", "Figure {}", "Figure {} – Data", "Figure  {} : x", "Figure {}:", "See Figure {}", "Figure", "Table {}", "", "figure {}: a",
        "Figure {} Figure {}", "Figures", "Figure: x"]
HEADS = ["Value", "Code", "Bits", "Bit", "Bytes", "Byte", "Values", "Description", "Definition", "Attribute", "Power Scope", "Type", "", "VALUE", " bits\n",
         "Bits:", "Description ", "Index", "…", "Note"]
KEYS = ["0", "7:0", "31:08", "00h", "01b", "0:7", "…", "", "N:0", "Reserved", "Note", "Notes:", "Note: x", "3", "²", "٣", "1:", ":", "99999999999999999999", "0 : 0",
        "a:b", "N+3:N", "-1", "Bytes", "All other values"]
DESCS = ["Reserved", "reserved", "Obsolete", "…", "Name (ACR): text.", "Name: text", "Name", "Name (", ") (", "(X): y", ":", "", " ", "Note", "Notes:", "NOTE 1: x",
         "2nd name: x", "1", "A" * 70 + ": " + "b " * 50, "a. b. c: d. e", "List", "List of X", "É: é", "ß", "ﬁ: x", "x\n y\t: z", "–: –", "0", "/", "-", "_: _", "a/b-c d_e",
         "\u00a0", "\u200b", "İstanbul", "🙂", "Figure 3: nested", "(refer to Figure 39).", "Figure 24: glued", "Figure 65: glued", "…: x", "Reserved: x", "RESERVED ", "&<>\"'"]
SPANS = ["1", "2", "3", "2", "0", "-1", "x", "", "1000", " 2 ", "2.0", "٢"]
IDS = ["1", "2", "3", "7", "10", "19", "23", "37", "41", "42", "64", "77", "A1", "b.2", "é", "0", "-"]


class Bytes:
    def __init__(self, b):
        self.b, self.i = b, 0

    def n(self, k):
        if self.i >= len(self.b):
            return 0
        v = self.b[self.i]
        self.i += 1
        return v % k

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def odds(self, num, of):
        return self.n(of) >= of - num  # zero bytes give the ordinary choice


class Soup:
    def __init__(self, src, sane=2):
        self.s = src
        self.sane = sane

    def inline(self, t):
        k = self.s.n(12)
        e = escape(t)
        if k == 9:
            return f"<b>{e}</b>"
        if k == 10:
            h = len(t) // 2
            return f"<span>{escape(t[:h])}</span><span class=\"a\">{escape(t[h:])}</span>"
        if k == 11:
            return e
        return f"<span>{e}</span>"

    def blocks(self, t, depth):
        s, out = self.s, []
        k = s.n(16)
        if k == 15:
            out.append(self.inline(t))
        elif k == 14:
            out.append(f"<ul><li><p>{self.inline(t)}</p></li></ul>")
        elif k == 13:
            out.append("<!-- c -->")
        elif k == 12:
            pass
        elif k == 11:
            out.append(f"<div><p>{self.inline(t)}</p></div>")
        else:
            out.append(f"<p>{self.inline(t)}</p>")
        for _ in range(s.n(8) - 5):
            out.append(f"<p>{self.inline(s.pick(DESCS))}</p>")
        if depth > 0:
            for _ in range(max(0, s.n(10) - 7)):
                out.insert(s.n(len(out) + 1) if s.odds(1, 3) else len(out), self.table(depth - 1))
        return "".join(out)

    def cell(self, t, depth, tag):
        s = self.s
        if s.odds(1, 24):
            tag = "th" if tag == "td" else "td"
        a = ""
        if s.odds(1, 8):
            a += f' rowspan="{s.pick(SPANS)}"'
        if s.odds(1, 10):
            a += f' colspan="{s.pick(SPANS)}"'
        return f"<{tag}{a}>{self.blocks(t, depth)}</{tag}>"

    def table(self, depth):
        """header row and data rows"""
        s = self.s
        rows = []
        hs = []
        if not s.odds(1, 8):
            hs = s.pick([["Bits", "Description"], ["Bytes", "Description"], ["Value", "Description"], ["Code", "Definition"], ["Bit", "Attribute", "Description"]])[:]
        for _ in range(max(0, s.n(8) - 5)):
            hs.insert(s.n(len(hs) + 1), s.pick(HEADS))
        if not s.odds(1, 12):
            rows.append("<tr>" + "".join(self.cell(h, 0, "th") for h in hs) + "</tr>")
        for _ in range(s.n(6) or 3):
            k = s.n(24)
            n = len(hs) or 2
            if k == 15:
                n = s.n(5)
            if k == 14:
                c = f'<td colspan="{s.pick(SPANS)}"><p>{self.inline(s.pick(DESCS))}</p></td>'
                rows.append(f"<tr>{c}</tr>")
                continue
            if k == 13:
                rows.append(f'<tr><th colspan="{s.pick(SPANS)}">{self.blocks(s.pick(DESCS), 0)}</th></tr>')
                continue
            if k == 12:
                rows.append(self.s.pick(["<tr/>", "<!-- <tr></tr> -->", "<tr><p>x</p></tr>", "<tbody><tr><td><p>0</p></td><td><p>x</p></td></tr></tbody>", "text", "<td><p>7</p></td>", "<?pi x?>", "<caption>Figure 3: x</caption>"]))
                continue
            cells = [self.cell(s.pick(KEYS) if i == 0 else s.pick(DESCS), depth if i else 0, "td") for i in range(n)]
            rows.append("<tr>" + "".join(cells) + "</tr>")
        return "<table>" + "".join(rows) + "</table>"

    def figure(self, fid, depth):
        s = self.s
        t = self.table(depth)
        cap = s.pick(CAPS) if s.odds(1, 3) else CAPS[0]
        cap = cap.replace("{}", fid)
        c = self.s.pick(["<tr><td colspan=\"2\"><p>{}</p></td></tr>"] * 8 + ["<tr><th><p>{}</p></th></tr>", "<tr><td>{}</td><td/></tr>", "<tr><td><p>{}</p><p>more</p></td></tr>", ""])
        t = "<table>" + c.replace("{}", self.inline(cap)) + t[len("<table>"):]
        if s.odds(1, 16):
            t = s.pick(["<table><tr><td>{}</td></tr></table>", "<table><tr><td><p>x</p>{}</td></tr></table>", "<table><tr><th>{}</th></tr></table>", "<div>{}</div>",
                        "<table><tr><td>{}</td><td><p>Figure 9: y</p></td></tr><tr><td><p>z</p></td></tr></table>", "{}{}"]).replace("{}", t)
        return t


def wrap(spec, rev, tables):
    return (
        '<!DOCTYPE html>\n<html lang="en">\n<head>\n'
        f'<meta charset="utf-8" data-spec="{escape(spec)}" data-revision="{escape(rev)}"/>\n<title>t</title>\n</head>\n<body>\n'
        + "\n".join(tables) + "\n</body>\n</html>\n"
    )


def damage(table, muts):
    """Apply (op, position, argument) mutations to an lxml element, in place."""
    import copy

    from lxml import etree

    done = 0
    for op, pos, arg in muts:
        els = [e for e in table.iter() if isinstance(e.tag, str)]
        el = els[pos % len(els)]
        par = el.getparent()
        op %= 11
        if op == 0 and el is not table:
            par.remove(el)
        elif op == 1 and el is not table:
            par.insert(arg % (len(par) + 1), copy.deepcopy(el))
        elif op == 2:
            el.tag = ["td", "th", "tr", "p", "table", "span", "ul", "div"][arg % 8]
        elif op == 3:
            el.set(["rowspan", "colspan"][arg % 2], SPANS[arg // 2 % len(SPANS)])
        elif op == 4:
            for k in list(el.attrib):
                del el.attrib[k]
        elif op == 5:
            el.text = (KEYS + DESCS)[arg % (len(KEYS) + len(DESCS))]
        elif op == 6 and el is not table:
            other = els[arg % len(els)]
            if el not in other.iterancestors() and other is not el and el not in list(other.iter()) and other is not table:
                other.append(el)
        elif op == 7:
            for c in list(el):
                el.remove(c)
        elif op == 8 and len(el) > 1:
            el.insert(0, el[-1])
        elif op == 9 and el is not table:
            t = etree.SubElement(el, "table")
            t.append(copy.deepcopy(el) if el.tag == "tr" else etree.Element("tr"))
        elif op == 10:
            el.tail = "stray"
        else:
            continue
        done += 1
    table.tail = "\n"
    return done
