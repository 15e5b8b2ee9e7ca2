"""Renders role-level documents (see model.py) as HTML models.

A document is {"spec", "rev", "figs": [fig]}; `style` chooses among equivalent
presentations of the same content."""
import zlib
from html import escape

STYLE0 = {"ws": 1, "split": 0, "cls": 0, "capth": 0, "noise": 0}
INLINE = ["b", "i", "u", "s", "sub", "sup", "em", "a"]
COMMENTS = ["<!-- Figure 0: comment -->", "<!--x-->", "<!-- <p>Reserved</p> -->", "<!--7:0-->"]
WS = ["", "\n", "\n  \n   ", " "]


class R:
    def __init__(self, style=None):
        self.st = dict(STYLE0, **(style or {}))
        self.n, self.k = 0, self.st["noise"]

    def rnd(self, n):
        """pseudo-random choice by the style's noise seed"""
        self.k = zlib.crc32(b"%d" % self.n, self.k)
        self.n += 1
        return (self.k >> 7) % n

    @property
    def w(self):
        """what stands between two elements"""
        if not self.st["noise"]:
            return WS[self.st["ws"]]
        r = self.rnd(12)
        if r == 0:
            return COMMENTS[self.rnd(4)]
        if r == 1:
            return "\n" + COMMENTS[self.rnd(4)] + " "
        return ["", "\n", " ", "\n\t ", "\n    "][self.rnd(5)]

    def join(self, parts):
        return "".join((self.w if i else "") + p for i, p in enumerate(parts))

    def attrs(self, **kw):
        a = "".join(f' {k}="{escape(str(v))}"' for k, v in kw.items() if v is not None)
        if self.st["cls"]:
            self.n += 1
            a = f' class="tcell{self.n % 5}" data-x="{self.n}"' + a
        elif self.st["noise"]:
            a = ["", "", f' id="i{self.n}"', ' style="color: #808080; width:10%"', ' class="fg3 bg2"', ' title="Figure 3: x"'][self.rnd(6)] + a
        return a

    def text(self, t):
        """t as a sequence of spans"""
        k = self.st["split"]
        if self.st["noise"]:
            out, i = "", 0
            while i < len(t) or not out:
                n = 1 + self.rnd(9)
                if t[i : i + 1].isspace() and self.rnd(3) == 0:
                    # a blank standing between spans
                    n = len(t[i:]) - len(t[i:].lstrip())
                    out += escape(t[i : i + n])
                    i += n
                    continue
                part = escape(t[i : i + n])
                i += n
                r = self.rnd(7)
                part = f"<span{self.attrs()}>{part}</span>"
                if r == 0:
                    g = INLINE[self.rnd(8)]
                    part = f"<{g}>{part}</{g}>"
                elif r == 1:
                    part += COMMENTS[self.rnd(4)]
                out += part
            return out
        if not k:
            return f"<span{self.attrs()}>{escape(t)}</span>"
        parts = [t[i : i + k] for i in range(0, len(t), k)] or [""]
        out = "".join(f"<span{self.attrs()}>{escape(p)}</span>" for p in parts)
        if self.st["cls"] == 2:
            out = f"<b>{out}</b>"
        return out

    def p(self, t):
        if self.st["noise"]:
            return f"<p{self.attrs()}>{self.w}{self.text(t)}{self.w}</p>"
        w = self.w if self.st["ws"] == 2 else ""
        return f"<p{self.attrs()}>{w}{self.text(t)}{w}</p>"

    def blocks(self, blocks):
        out = []
        for b in blocks:
            if isinstance(b, str):
                out.append(self.p(b))
            elif isinstance(b, dict):
                out.append(self.table(b, nested=True))
            else:  # ["raw", html]
                out.append(b[1])
        return self.join(out)

    def cell(self, c, tag="td"):
        """c: {"b": blocks, "cs": colspan, "rs": rowspan, "tag": tag}"""
        a = self.attrs(colspan=c.get("cs"), rowspan=c.get("rs"))
        t = c.get("tag", tag)
        return f"<{t}{a}>{self.w}{self.blocks(c['b'])}{self.w}</{t}>"

    def row(self, cells, tag="td"):
        return f"<tr{self.attrs()}>{self.w}" + self.join([self.cell(c, tag) for c in cells]) + f"{self.w}</tr>"

    def table(self, fig, nested=False):
        from vlib import model

        rows = []
        if not nested and fig.get("cap") is not None:
            cap = {"b": fig["cap"] if isinstance(fig["cap"], list) else [fig["cap"]], "cs": max(1, len(fig["cols"]))}
            rows.append(self.row([cap], "th" if self.st["capth"] else "td"))
        if fig["cols"]:
            # a column without a header may well lack a paragraph
            rows.append(self.row([{"b": [h] if h or len(fig["cols"]) % 2 else []} for _, h in fig["cols"]], "th"))
        for cells in model.grid(fig):
            rows.append(self.row(cells))
        own = f' id="{escape(fig["tid"])}"' if fig.get("tid") and not nested else self.attrs()
        inner = f"<table{own}>{self.w}" + self.join(rows) + f"{self.w}</table>"
        if not nested and fig.get("wrap"):
            inner = f"<table>{self.w}<tr><td>{inner}</td></tr>{self.w}</table>"
        return inner

    def doc(self, doc):
        figs = []
        for f in doc["figs"]:
            figs.append(f["raw"] if "raw" in f else self.table(f))
            if self.st["cls"] == 2:
                figs.append("<!-- Figure 0: comment -->")
        body = "\n".join(figs)
        return (
            '<!DOCTYPE html>\n<html lang="en">\n<head>\n'
            f'<meta charset="utf-8" data-spec="{escape(doc["spec"])}" data-revision="{escape(doc["rev"])}"/>\n'
            f"<title>{escape(doc['spec'])}</title>\n</head>\n<body>\n{body}\n</body>\n</html>\n"
        )


def html(doc, style=None):
    return R(style).doc(doc)
