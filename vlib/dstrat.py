"""Hypothesis strategies for docx descriptions (see docx.py)."""
from hypothesis import strategies as st

from vlib.strat import T_CLEAN, T_TEXT, chance

SPECIAL = ["<", ">", "&", '"', "'", "&amp;", "<b>", "]]>", "<!--", "-->", "</span>", "</p>", "\\n", "\\", "é", "®", "µ", "≤", "…", "–", "“x”", "語",
           "🙂", " ", "​", "́", "\n", "\t", "  ", " ", "%s", "{}", "{x}", "$", "#", ";", "\x85", " ", "﻿", "­", "&#10;", "&lt;", "%", "‑"]
odd_text = st.lists(st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL), st.text("abcXYZ019:,. ", min_size=1, max_size=5)), min_size=1, max_size=7).map("".join)
uni_text = st.text(st.characters(blacklist_categories=("Cs", "Cc"), blacklist_characters="￾￿"), min_size=1, max_size=8)
words = st.binary(min_size=1, max_size=6).map(lambda b: " ".join(T_TEXT[x] for x in b))
any_run = st.one_of(words, odd_text, odd_text, uni_text)

ONOFF = ["", "", "1", "true", "on", "0", "false", "off"]
COLORS = ["FF0000", "00B050", "0000FF", "808080", "000000", "123ABC"]


@st.composite
def fmt(draw, names=(), auto=False):
    if draw(chance(1, 4)):
        return None
    f = {}
    if names and draw(chance(1, 2)):
        f["style"] = draw(st.sampled_from(names))
    bits = draw(st.integers(0, 255))
    for i, k in enumerate(("b", "i", "strike")):
        if bits >> i & 1 and bits >> 7 & 1 or bits % 11 == i:
            f[k] = draw(st.sampled_from(ONOFF))
    if bits >> 3 & 3 == 1:
        f["u"] = draw(st.sampled_from(["single", "none", "double", "wave", "none"]))
    if bits >> 5 & 3 == 1:
        f["va"] = draw(st.sampled_from(["baseline", "subscript", "superscript"]))
    if bits >> 4 & 3 == 2:
        f["color"] = draw(st.sampled_from(COLORS + (["auto"] if auto else [])))
    if bits % 9 == 1:
        f["sz"] = draw(st.integers(8, 40))
    return f


def plain_fmt():
    return st.sampled_from([None, None, {}, {"b": ""}, {"i": ""}, {"b": "0"}, {"u": "single"}, {"va": "superscript"}, {"color": "FF0000"}, {"color": "auto"}, {"sz": 20}])


INLINE = ["ins", "ins", "sdt", "smart", "custom", "moveTo", "bdo"]
AROUND = ["sdt", "custom"]


@st.composite
def item(draw, text, f, odd=True):
    k = draw(st.integers(0, 15)) if odd else 15
    if k == 0:
        return {"k": "noise", "n": draw(st.integers(0, 30))}
    kind = {1: "link", 2: "fld", 3: "link"}.get(k, "r")
    if k == 4:
        s = [[draw(st.sampled_from(["tab", "br", "cr", "noBreakHyphen"]))]]
    elif k == 5:
        s = draw(st.lists(st.one_of(text.map(lambda t: ["t", t]), st.sampled_from([["tab"], ["br"], ["cr"], ["t", ""], ["noBreakHyphen"]])), min_size=1, max_size=5))
    else:
        s = [["t", draw(text)]]
    it = {"k": kind, "s": s, "f": draw(f)}
    if kind != "r" and draw(chance(2, 3)):
        # several runs
        it["s"] = [["t", draw(text)] for _ in range(draw(st.integers(1, 4)))]
        it["m"] = 1
    if odd and draw(chance(1, 8)):
        # tracked changes, content controls and the like
        it["in"] = draw(st.lists(st.sampled_from(INLINE), min_size=1, max_size=2))
    if kind != "r" and draw(chance(1, 4)):
        it["in2"] = draw(st.sampled_from(INLINE))
    return it


@st.composite
def items(draw, text=any_run, f=plain_fmt(), odd=True, hi=5):
    if odd and draw(chance(1, 12)):
        # nothing to see
        return draw(st.sampled_from([[], [{"k": "noise", "n": 5}], [{"k": "r", "s": [["tab"]], "f": None}], [{"k": "r", "s": [["t", ""]], "f": {"b": ""}}],
                                     [{"k": "r", "s": [["br"]], "f": None}, {"k": "noise", "n": 3}]]))
    return draw(st.lists(item(text, f, odd), min_size=1, max_size=hi))


SHD = [None, None, None, "auto", "FFFFFF", "ffffff", "D9D9D9", "bfbfbf", "808080", "000000", "FF0000", "92D050", "D9D9D8", "d8d9d9", "00FF00", "0a0a0b"]


@st.composite
def cells(draw, rows, cols, merge, shd):
    """A partition of the grid into rectangles."""
    free = [[True] * cols for _ in range(rows)]
    out = []
    b = draw(st.binary(min_size=rows * cols, max_size=rows * cols))
    k = 0
    for y in range(rows):
        for x in range(cols):
            if not free[y][x]:
                continue
            v = b[k]
            k += 1
            w = h = 1
            if merge:
                w, h = (1, 1, 1, 1, 2, 2, 3, 8)[v & 7], (1, 1, 1, 1, 2, 2, 3, 8)[v >> 3 & 7]
            n = 0
            while n < w and x + n < cols and free[y][x + n]:
                n += 1
            w = n
            n = 1
            while n < h and y + n < rows and all(free[y + n][x + i] for i in range(w)):
                n += 1
            h = n
            for j in range(h):
                for i in range(w):
                    free[y + j][x + i] = False
            c = {"x": x, "y": y, "w": w, "h": h, "b": []}
            if v >> 6 == 1:
                c["one"] = 1
            if v >> 6 == 2:
                c["cont"] = 1
            if shd:
                s = SHD[v * 7 % 16 if shd == 2 else v % 16]
                if s is not None:
                    c["shd"] = s
                if h > 1 and v & 64:
                    c["shd2"] = SHD[(v + 3) % 16]
            out.append(c)
    return out


def pieces(t, cuts):
    cuts = sorted(c for c in cuts if 0 < c < len(t))
    return [t[a:b] for a, b in zip([0] + cuts, cuts + [len(t)])]


@st.composite
def table(draw, o, depth=0):
    rows, cols = draw(st.integers(1, o.rows)), draw(st.integers(1, o.cols))
    if depth:
        rows, cols = min(rows, 3), min(cols, 3)
    cs = draw(cells(rows, cols, o.merge, o.shd))
    if o.ragged and draw(chance(1, 6)):
        # rows missing their last cell
        for c in [c for c in cs if c["x"] == cols - 1 and c["w"] == c["h"] == 1 and cols > 1]:
            if draw(st.booleans()):
                cs.remove(c)
    for c in cs:
        c["b"] = draw(blocks(o, depth))
        if o.wraps and draw(chance(1, 4)):
            c["bw"] = [[draw(st.integers(0, max(0, len(c["b"]) - 1))), draw(st.integers(1, 4)), draw(st.sampled_from(AROUND + ["bm"]))] for _ in range(draw(st.integers(1, 2)))]
        if o.wraps and draw(chance(1, 12)):
            c["in"] = draw(st.sampled_from(AROUND))
    if draw(chance(1, 2)):
        # a caption in its own row
        first = next(c for c in cs if c["x"] == c["y"] == 0)
        cap = draw(st.sampled_from(["Figure {}: {}", "Figure {}: {}", "Figure {}:{}", "Figure {} – {}", "Figures {}: {}", "Figure {}A: {}", "figure {}: {}", "x Figure {}: {}", "Table {}: {}", "Figure {} {}:"]))
        t = cap.format(draw(st.integers(0, 500)), " ".join(T_CLEAN[x] for x in draw(st.binary(min_size=1, max_size=4))))
        parts = pieces(t, draw(st.lists(st.integers(1, max(1, len(t) - 1)), max_size=draw(st.sampled_from([0, 1, 6])), unique=True)))
        cap = ["p", [{"k": "r", "s": [["t", p]], "f": draw(o.f)} for p in parts], None]
        pos = 1 if draw(chance(1, 8)) else 0
        first["b"].insert(min(pos, len(first["b"])), cap)
    t = {"rows": rows, "cells": cs}
    if o.wraps and draw(chance(1, 6)):
        t["in"] = {str(y): draw(st.sampled_from(AROUND)) for y in draw(st.lists(st.integers(0, rows - 1), min_size=1, max_size=3, unique=True))}
    return t


@st.composite
def blocks(draw, o, depth):
    out, cur, climb = [], None, False
    for _ in range(draw(st.integers(*o.blocks))):
        if depth < o.depth and draw(chance(1, 7)):
            out.append(["t", draw(table(o, depth + 1))])
            continue
        num = None
        if o.nums and draw(chance(o.listy, 12)):
            if cur is None or draw(chance(1, 14 if climb else 4)):
                n, deep = draw(st.sampled_from(o.nums))
                climb = draw(chance(1, 3))  # level by level down to the deepest
                cur = [n, 0 if climb else draw(st.sampled_from([0, 0, 0, 1, 2, 4, 7])), deep]
            else:
                steps = [1, 1, 1, 1, 1, 0, -1] if climb else [0, 0, 0, 1, 1, 1, -1, -1, 2, -2, -4, -7]
                cur = [cur[0], cur[1] + draw(st.sampled_from(steps)), cur[2]]
                if draw(chance(1, 5)):
                    # possibly another number of the same list
                    cur[0] = draw(st.sampled_from([x[0] for x in o.nums if x[1] == cur[2]]))
            cur[1] = max(0, min(cur[1], cur[2]))
            num = cur[:2]
            if not num[1] and draw(chance(1, 4)):
                num[1] = None  # the first
        out.append(["p", draw(items(o.text, o.f, o.odd, o.runs)), num])
    return out


class Opt:
    def __init__(self, **kw):
        self.rows, self.cols = 3, 3
        self.merge, self.shd, self.ragged = False, 0, False
        self.blocks = (0, 2)
        self.depth = 1
        self.text, self.f, self.odd, self.runs = any_run, plain_fmt(), True, 4
        self.nums, self.listy = None, 0
        self.wraps = True
        self.__dict__.update(kw)

    def with_(self, **kw):
        o = Opt()
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o


STYLE_IDS = ["Strong", "Emphasis", "A1", "x-y", "Häuser", "Char 3", "s&t", "Z9"]
HEAD = [["Generic Specification, Revision 1.0c"]]


@st.composite
def stylesheet(draw, n=None):
    n = draw(st.integers(0, 6)) if n is None else n
    ids = draw(st.permutations(STYLE_IDS))[:n]
    out = []
    for i, sid in enumerate(ids):
        s = {"id": sid, "f": draw(fmt())}
        k = draw(st.integers(0, 5))
        if k < 2:
            s["alias"] = [f"alias{i}"] if k else [f"al {i}", f"b{i}"]
        if i and draw(chance(2, 3)):
            s["base"] = "Missing" if draw(chance(1, 10)) else ids[draw(st.integers(0, i - 1))]
        out.append(s)
    return draw(st.permutations(out))


@st.composite
def numbering(draw, many=True):
    n = draw(st.integers(1, 3))
    aids = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))
    ab = []
    for a in aids:
        kind = draw(st.sampled_from(["ol", "ul", "mix", "ol", "ul"]))
        lv = []
        depth = draw(st.sampled_from([9, 9, 9, 1, 3, 5]))
        for i in range(depth):
            o = kind == "ol" or kind == "mix" and draw(st.booleans())
            if o:
                lv.append([draw(st.sampled_from(["decimal", "lowerLetter", "lowerRoman", "decimalZero", "upperLetter", "upperRoman", "ordinal"])), draw(st.sampled_from(["%{}.", "%{})", "%{}", "%1.%{}."])).format(i + 1)])
            else:
                lv.append(["bullet", draw(st.sampled_from(["", "o", "•", "-", "·", "(", "x%1", None]))])
        k = draw(st.integers(0, 9))
        if k < 2:
            # levels not defined
            for i in draw(st.lists(st.integers(0, depth - 1), min_size=1, max_size=3)):
                lv[i] = None
        if k == 2:
            lv = []  # as the target of a numStyleLink
        if k == 3 and lv[0]:
            lv[0][0] = None
        ab.append([a, lv])
    m = draw(st.integers(len(ab), 5))
    nids = draw(st.lists(st.integers(1, 60), min_size=m, max_size=m, unique=True))
    mp = [[x, ab[i][0] if i < len(ab) else draw(st.sampled_from(aids))] for i, x in enumerate(nids)]
    return {"abs": ab, "map": mp}


def usable(nums, cap=8):
    """[(num id, deepest level)] including numbers which stand for no list"""
    lv = {a: len(x) for a, x in nums["abs"]}
    out = [(n, max(0, min(cap, lv[a] - (n % 5 > 0)))) for n, a in nums["map"]]  # or one level more
    return out * 3 + [(0, 2), (99, 1)]


@st.composite
def document(draw, o, styles=False, nums=False, lo=1, hi=2):
    doc = {"head": HEAD, "styles": [], "nums": None, "body": []}
    if styles:
        doc["styles"] = draw(stylesheet())
        names = [n for s in doc["styles"] for n in [s["id"]] + s.get("alias", [])]
        o = o.with_(f=fmt(names + ["Missing"] if len(names) % 3 == 0 else names, auto=True))
    if nums:
        doc["nums"] = draw(numbering())
        o = o.with_(nums=usable(doc["nums"]))
    elif draw(st.booleans()):
        doc["nums"] = {"abs": [[0, [["decimal", "%1."]]]], "map": [[1, 0]]}
    for _ in range(draw(st.integers(lo, hi))):
        if draw(chance(1, 5)):
            doc["body"].append(["p", draw(items(hi=2)), None])
        doc["body"].append([draw(st.sampled_from(["t", "t", "t", "sdt"])), draw(table(o))])
    return doc
