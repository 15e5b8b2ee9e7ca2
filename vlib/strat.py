"""Hypothesis strategies for role-level documents (see model.py)."""
from hypothesis import strategies as st

WORDS = """data size queue identifier support controller namespace attribute size command status log page
offset buffer pointer entry count type feature reset error media power state vendor specific value host
memory region extended write read zone atomic boundary unit protection information metadata format key
subsystem port transport timeout interval threshold limit maximum minimum number length version revision
capability optional mandatory event sanitize firmware slot active enable disable ready""".split()
# these start something else when leading a cell, caption or row
BAD = ("note", "reserved", "obsolete", "list", "figure", "…")
LET = "abcdefghijklmnopqrstuvwxyz"
UNI = "éüñßΩжλ語"


def chance(n, of):
    return st.integers(0, of - 1).map(lambda v: v < n)


def safe(w):
    return "q" + w if w.lower().startswith(BAD) else w


def table(parts):
    """256 tokens, picked by a byte: one cheap draw gives a whole phrase"""
    out = []
    for share, toks in parts:
        out += [toks[i % len(toks)] for i in range(share)]
    assert len(out) == 256, len(out)
    return out


CAP = [w[0].upper() + w[1:] for w in WORDS] + list("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
SHORT = ["I/O", "NVMe", "PCIe", "2nd", "64b", "x4", "R/W", "a", "of", "the", "iSCSI", "e2e"]
NUMS = ["0", "1", "7", "16", "4096", "03", "10b"]
UNIW = [c + t for c in "éüñßΩжλ語Éİ" for t in ("", "a", "té")]
T_CLEAN = table([(256, CAP)])
T_STRUCT = table([(130, CAP), (40, WORDS), (20, SHORT), (14, NUMS), (14, UNIW), (10, ["&"]),
                  (28, ["data/size", "Q&A", "e.g", "a,b", "Read-only", "x-y", "v1.2", "Host/NVM", "up,", "Non-Volatile", "no_t", "B/s/d"])])
T_VALUE = table([(140, CAP), (40, WORDS), (20, SHORT), (18, NUMS), (18, UNIW),
                 (20, ["data/size", "Read-only", "x-y", "Host/NVM", "Non-Volatile", "no_t", "4K", "B/s/d"])])
PUNCT = ["≤", "“x”", "(e)", "<b>", "&", "h;", "Größe", "–", "R/W", "Figure 7", "≥5%", "'", "&amp;", "µs", "(refer to section 3)"]
T_TEXT = table([(190, WORDS), (20, CAP), (16, ["a", "the", "of", "0", "16"]), (30, PUNCT)])
T_COLON = table([(190, WORDS), (20, CAP), (11, ["a", "the", "of", "0", "16"]), (25, PUNCT), (10, ["0:1", "x: y"])])


def phrase(tab, lo=1, hi=6):
    return st.binary(min_size=lo, max_size=hi).map(lambda b: safe(" ".join(tab[x] for x in b)))


any_text = st.text(
    st.sampled_from("abcXYZ019 ,;-_()[]{}<>&\"'%$#@!?*/\\|=+^~`éüß®™µ≤–—“”语🙂"),
    min_size=1,
    max_size=24,
).map(lambda t: safe(" ".join(t.split()) or "x"))


# -- names -----------------------------------------------------------------------


def clean_name(maxw=5):
    """A name giving a proper identifier in every position."""
    return phrase(T_CLEAN, 1, maxw)


LEADWORD = ["Reserved", "Obsolete", "List", "Figure", "RESERVED", "reserved"]


def led(name, words, n=1, of=14):
    """now and then with a word in front which means something when alone"""
    return st.builds(lambda k, w, t: f"{w} {t}" if k else t, chance(n, of), st.sampled_from(words), name)


def struct_name():
    """Any name of a structure field; may give odd labels."""
    return led(phrase(T_STRUCT, 1, 8), LEADWORD)


acronyms = st.one_of(
    st.text("ABCDEFGHIJKLMNOPQRSTUVWXYZ", min_size=1, max_size=8),
    st.text("ABCXYZ019_", min_size=1, max_size=8).map(lambda t: t.replace("__", "_")),
    st.text("ABCdef01 ", min_size=1, max_size=10).map(lambda t: " ".join(t.split()) or "A"),
    st.text(LET + "ABC", min_size=1, max_size=8),
)


def acronym():
    return acronyms


def dashes(n):
    while "--" in n or "- -" in n:
        n = n.replace("- -", "-").replace("--", "-")
    return n.replace("- ", "-").replace(" -", "-")


LEADNUM = [str(n) for n in (0, 1, 2, 7, 10, 16, 64, 512, 999, 4096)] + ["4K", "16-", "3/", "00"]


SEPS = [" ", " / ", "- ", "-", " -", "/", " /", "/ ", "-/-", "--", " ", "  "]


def value_name():
    def build(b):
        words = [T_VALUE[x] for x in b[2:]]
        n = safe(" ".join(words))
        if b[0] >= 200:
            # two separators in a row give one
            n = words[0]
            for k, w in enumerate(words[1:]):
                n += SEPS[(b[1] + k * b[0]) % len(SEPS)] + w
            n = safe(n)
        if b[0] < 64:
            n = dashes(LEADNUM[b[0] % len(LEADNUM)] + (" ", "", "-")[b[1] % 3] + n)
        return n

    return led(st.binary(min_size=3, max_size=8).map(build), LEADWORD + ["Note", "Notes", "NOTE"])


# -- briefs ------------------------------------------------------------------------


def fit(t, target):
    while len(t) < target:
        t += " data"
    t = t[:target]
    return t[:-1] + "x" if t[-1] == " " else t


def sentence(target=None, colon=True):
    """Text without period; of exactly `target` characters if given."""
    s = st.binary(min_size=1, max_size=9).map(lambda b: " ".join((T_COLON if colon else T_TEXT)[x] for x in b))
    return s if target is None else s.map(lambda t: fit(t, target))


edge = st.integers(57, 63)


@st.composite
def brief_text(draw):
    """A description text after the name: 1..4 sentences, lengths around the limit."""
    k = draw(st.integers(0, 9))
    end = ("", ".", "..")[k % 3]
    if draw(chance(1, 5)):
        # other punctuation is text
        end = draw(st.sampled_from([";", "!", "?", ",", ")", ":", "-", "\"", ";.", "!.", ").", ",.", "'", "*", "]"]))
        dot = draw(st.sampled_from([". ", ".", ".  ", "; ", "! ", "? "]))
        return dot.join(draw(st.lists(sentence(), min_size=1, max_size=2))) + end
    if k < 2:
        return draw(sentence())
    if k < 4:
        return fit(draw(sentence()), draw(edge)) + end
    if k < 6:
        return fit(draw(sentence()), draw(edge)) + ". " + draw(sentence()) + end[:1]
    if k < 8:
        ss = draw(st.lists(sentence(), min_size=1, max_size=4))
        return ". ".join(ss) + end[:1]
    # total length at the limit, in two sentences
    n = draw(edge)
    a = fit(draw(sentence()), draw(st.integers(1, n - 5)))
    return a + ". " + fit(draw(sentence()), n - len(a) - 2) + end[:1]


@st.composite
def long_brief(draw):
    """First sentence followed by plenty: whatever else the cell holds, the brief is decided."""
    first = draw(sentence())
    if draw(st.booleans()):
        first = fit(first, draw(edge))
    return first + ". " + draw(sentence(target=70)) + "."


# -- keys --------------------------------------------------------------------------

def span_text(draw, lo, hi):
    if lo == hi and draw(chance(2, 3)):
        return draw(st.sampled_from(["{:d}", "{:02d}", "{:03d}"])).format(lo)
    f = draw(st.sampled_from(["{:d}", "{:02d}", "{:03d}"]))
    return f.format(hi) + draw(st.sampled_from([":", ":", ":", " : ", ": ", " :"])) + f.format(lo)


@st.composite
def struct_keys(draw, t, n, contiguous=True):
    """n keys in table order"""
    keys, pos = [], draw(st.sampled_from([0, 0, 0, 1, 64, 4096, 10**9, 2**53, 2**63 - 2, 10**30]))
    for _ in range(n):
        w = draw(st.sampled_from([1, 1, 2, 4, 8, 16, 3, 100, 2**20, 2**33, 2**64]))
        lo, hi = pos, pos + w - 1
        keys.append({"t": span_text(draw, lo, hi), "lo": lo, "hi": hi})
        pos = hi + 1
        if not contiguous:
            pos = max(0, pos + draw(st.sampled_from([0, 0, 0, 1, 7, -1, -2, -100])))
    if t == "bits":
        keys.reverse()
    return keys


RAWKEYS = ["2*n+7:2*n+6", "4095:z", "03 to 13", "82h", "N", "z:0", "varies", "-1", "7-0", "7:", ":0", "7:0 (a)", "1.5",
           "8*n+7:8*n [x]", "N+1:N;", "n+3:n → m", "7:0 [1]", "n:0/", "0x10", "7::0", "7:6:5", "+3", "a7:0", "N-1:N-4", "7 6", "1,2", "7:0h", "7/0", "(7:0)", "7:0*", "1e3", "1_0", "7:-1"]


def not_plain(t):
    import re

    return not re.fullmatch(r"\d+\s*(:\s*\d+)?", t) and not t.lower().startswith(BAD)


raw_key = st.one_of(
    st.sampled_from(RAWKEYS),
    st.text("0123456789:: -nh.", min_size=1, max_size=7).map(lambda t: " ".join(t.split()) or "n").map(
        lambda t: t if not_plain(t) else t + "n"),
).map(lambda t: {"t": t})
dyn_key = st.one_of(
    st.sampled_from([("8*n+7", "8*n"), ("72", "65"), ("(n+1)*4+3", "n*4"), ("7 + n", "n - 1"), ("N", "M"), ("99", "99"), ("64*(n+1)+63", "64*(n+1)"), ("8*n +\t7", "8 *n"), ("n\u00a0+\u00a03", "n"), ("n +\n 3", "n \t- 2")]),
    st.tuples(st.text("0123456789nm*+-()", min_size=1, max_size=9), st.text("0123456789nm*+-()", min_size=1, max_size=9)),
).map(lambda p: {"t": f"{p[0]}:{p[1]}", "dh": "".join(p[0].split()), "dl": "".join(p[1].split())})

value_text = st.one_of(
    st.integers(0, 255).map(lambda v: f"{v:02X}h"),
    st.integers(0, 15).map(lambda v: f"{v:04b}b"),
    st.integers(0, 10**6).map(str),
    st.tuples(st.integers(0, 127), st.integers(128, 255)).map(lambda p: f"{p[0]:02X}h to {p[1]:02X}h"),
    st.tuples(st.integers(0, 9), st.integers(10, 99)).map(lambda p: f"{p[0]} – {p[1]}"),
    st.integers(0, 2**32).map(lambda v: f"0x{v:X}"),
    any_text,
    st.one_of(
        # white space inside is kept
        st.lists(st.sampled_from(["0h", "to", "7Fh", "A", "(x)", "é", "-"]), min_size=2, max_size=4).flatmap(
            lambda w: st.sampled_from(["  ", "\u00a0", "   ", " \u00a0"]).map(lambda g: g.join(w))),
        # an ellipsis and more
        st.tuples(st.sampled_from(["…", "… ", "… to ", "…: "]), st.integers(0, 255)).map(lambda p: f"{p[0]}{p[1]:X}h"),
    ),
)


# -- rows and figures ----------------------------------------------------------------

KEYH = {"values": ["Value", "Values"], "bits": ["Bits"], "bytes": ["Bytes"]}
KEYH_ODD = {"values": ["Code"], "bits": ["Bit"], "bytes": ["Byte"]}
DESCH = {"values": ["Definition", "Description", "Power Scope"], "bits": ["Description"], "bytes": ["Description"]}
FREEH = ["Meaning", "Name", "Operation", "Power", "Event type", "Größe"]
XH = ["Type", "Reset", "Scope", "Support", "O/M", "I/O", "Admin", ""]


@st.composite
def columns(draw, t, odd=False, attr=None, xmax=1, shuffle=False, free=False):
    if free and t == "values" and not attr and draw(chance(1, 6)):
        # a table of just values and something else
        cols = [["key", draw(st.sampled_from(["Value"] + (["Code"] if odd else [])))], ["desc", draw(st.sampled_from(FREEH))]]
        if shuffle and draw(st.booleans()):
            cols.reverse()
        return cols
    key = draw(st.sampled_from(KEYH[t] + (KEYH_ODD[t] if odd else [])))
    desc = draw(st.sampled_from(DESCH[t]))
    attr = draw(chance(1, 4)) if attr is None else attr
    # the attribute column names fields only when it precedes the description
    cols = [["key", key]] + ([["attr", "Attribute"]] if attr else []) + [["desc", desc]]
    nx = draw(st.integers(0, xmax)) if xmax else 0
    xs = (draw(st.permutations(XH)) + [f"X{i}" for i in range(nx - len(XH))])[:nx]
    for h in xs:
        cols.insert(draw(st.integers(0, len(cols))), ["x", h])
    if shuffle:
        role = [c for c in cols]
        cols = draw(st.permutations(role))
        if attr:
            i, j = [k for k, c in enumerate(cols) if c[0] == "attr"][0], [k for k, c in enumerate(cols) if c[0] == "desc"][0]
            if i > j:
                cols = list(cols)
                cols[i], cols[j] = cols[j], cols[i]
    return [list(c) for c in cols]


@st.composite
def attr_cell(draw, t, name):
    n = draw(name)
    at = {"n": n, "colon": draw(chance(2, 3)), "rest": draw(sentence())}
    if at["colon"]:
        k = draw(st.integers(0, 7))
        if k < 3:
            at["sp"] = ("", "  ", "\n")[k]
    elif t != "values" and draw(chance(1, 5)):
        at["n"] = n.replace(" ", draw(st.sampled_from(GAPS)))
    return at


# white space between words
GAPS = ["\n", "\t", "  ", "\u00a0", "\n    ", " \n "]
# what comments spanning the table say; ellipses and notes excepted
COMMENT = ["see note {}", "The notes: {}", "Reserved", "Reserved: {}", "List of {}", "This field is reserved", "Figure 7: {}", "7:0", "0h {}", "Bits {}",
           "Obsolete", "Footnote: {}", "(Note: {})", "1. Note {}"]
VCOMMENT = COMMENT + ["Note: {}", "Note that {}", "NOTE 1: {}", "Notes apply", "Note", "notes {}", "Notes"]


def comment(t):
    return st.one_of(sentence(), st.builds(lambda f, s: f.format(s), st.sampled_from(VCOMMENT if t == "values" else COMMENT), sentence()))


class Opt:
    """What a generated figure may contain."""

    def __init__(self, **kw):
        self.rows = (0, 8)
        self.odd_rows = True  # elided, comment, notes, header rows, reserved
        self.name = clean_name()
        self.vname = clean_name()
        self.acr = acronym()
        self.brief = brief_text()
        self.more = True
        self.nested = 0
        self.odd_hdr = False
        self.attr = None
        self.xmax = 1
        self.rawkeys = True
        self.contiguous = True
        self.dynamic = False
        self.shuffle = False
        self.free_desc = False
        self.types = ["values", "bits", "bytes"]
        self.vkey = value_text
        self.__dict__.update(kw)

    def sub(self):
        o = Opt()
        o.__dict__.update(self.__dict__)
        o.nested = self.nested - 1
        o.rows = (1, min(4, max(1, self.rows[1])))
        return o


def norm_name(row, t):
    from vlib import model

    n = row["nm"]["n"]
    return model.norm(n) if t == "values" else model.initials(n)


def respell(draw, t):
    return draw(st.sampled_from([str.upper, str.lower, str, str.title]))(t) + draw(st.sampled_from(["", "", "."]))


@st.composite
def named_row(draw, o, t, key, cols):
    has_attr = any(c[0] == "attr" for c in cols)
    row = {"r": "f", "key": key, "nm": {"n": draw(o.vname if t == "values" else o.name), "a": None}, "br": None}
    # nothing says what to do about a bare number followed by a space
    if o.acr is not None and draw(chance(1, 2)) and not row["nm"]["n"].isdigit():
        row["nm"]["a"] = draw(o.acr)
    if t != "values" and " " in row["nm"]["n"] and draw(chance(1, 8)):
        row["nm"]["n"] = row["nm"]["n"].replace(" ", draw(st.sampled_from(GAPS)))
    if o.brief is not None and draw(chance(2, 3)):
        row["br"] = draw(o.brief)
        sp = draw(st.integers(0, 7))
        if sp < 2:
            row["brsp"] = ("", "  ")[sp]
        elif sp == 2:
            # nothing but the name again
            row["br"] = respell(draw, row["nm"]["a"] if row["nm"]["a"] is not None else norm_name(row, t))
    if o.more and draw(chance(1, 5)):
        if row["br"] is None:
            row["more"] = draw(st.lists(sentence(colon=False), min_size=1, max_size=2))
        else:
            row["more"] = draw(st.lists(sentence(), min_size=1, max_size=2))
    elif row["br"] is not None and o.brief is not None and draw(chance(1, 12)):
        row["br"] = ""  # a colon and nothing after it
    if o.nested and draw(chance(1, 3)):
        row["sub"] = draw(st.lists(figure_body(o.sub()), min_size=1, max_size=2 if draw(chance(1, 4)) else 1))
        row["br"] = draw(long_brief())
        row["subfirst"] = draw(st.booleans())
    if has_attr:
        row["at"] = draw(attr_cell(t, o.vname if t == "values" else o.name))
    nx = sum(c[0] == "x" for c in cols)
    if nx:
        row["x"] = draw(st.lists(any_text, min_size=nx, max_size=nx))
    return row


@st.composite
def figure_body(draw, o):
    t = draw(st.sampled_from(o.types))
    cols = draw(columns(t, odd=o.odd_hdr, attr=o.attr, xmax=o.xmax, shuffle=o.shuffle, free=o.free_desc))
    n = draw(st.integers(*o.rows))
    rows = []
    if t == "values":
        keys = [{"t": k} for k in draw(st.lists(o.vkey, min_size=n, max_size=n))]
    else:
        keys = draw(struct_keys(t, n, o.contiguous))
    dynamic = False
    for i in range(n):
        key = keys[i]
        kind = draw(st.integers(0, 19)) if o.odd_rows else 19
        if o.dynamic and t != "values" and not dynamic and draw(chance(1, 4)):
            rows.append({"r": "list", "text": draw(st.sampled_from(["List of Entries", "Reason List", "Identifier List", "List"]))})
            dynamic = True
        if t != "values":
            if dynamic and draw(chance(4, 5)):
                key = draw(dyn_key)
            elif o.rawkeys and draw(chance(1, 8)):
                key = draw(raw_key)
        if kind < 3:
            word = draw(st.sampled_from(["Reserved", "RESERVED", "reserved"] + (["Obsolete", "OBSOLETE", "obsolete", "oBsolete"][:1 + kind * 2] if t != "values" else ["ReserveD"])))
            row = {"r": "res", "key": key, "word": word}
            if draw(chance(1, 4)):
                row["more"] = draw(st.lists(sentence(colon=False), min_size=1, max_size=2))
            rows.append(row)
            if dynamic and "dh" in key:
                row["key"] = keys[i]
        elif kind == 3:
            rows.append({"r": "ell", "cs": draw(st.booleans())})
        elif kind == 4:
            rows.append({"r": "ellkey"})
        elif kind == 5 and t != "values":
            rows.append({"r": "elllab", "key": keys[i]})
        elif kind == 6:
            rows.append({"r": "th"})
        elif kind == 7:
            rows.append({"r": "com", "text": draw(comment(t))})
        elif kind == 8 and draw(chance(1, 3)):
            w = "Notes:" if t == "values" else draw(st.sampled_from(["Notes:", "Note:", "NOTES:", "Note 1:"]))
            rows.append({"r": "notes", "text": w + " " + draw(sentence()), "more": draw(st.lists(sentence(), max_size=1))})
        else:
            rows.append(draw(named_row(o, t, key, cols)))
    nx = sum(c[0] == "x" for c in cols)
    return {"t": t, "cols": cols, "rows": rows}


fig_id = st.one_of(
    st.integers(0, 999).map(str),
    st.integers(0, 999).map(str),
    st.tuples(st.integers(1, 99), st.sampled_from(["A", "b", "-1", ".2", "_x", "é"])).map(lambda p: f"{p[0]}{p[1]}"),
    st.sampled_from(["X", "A-1", "TBD", "1.2.3", "<x>", "&"]),
)
title_tail = st.one_of(phrase(T_CLEAN, 0, 5), any_text)


@st.composite
def caption(draw, fid):
    sp = draw(st.sampled_from([" ", " ", " ", "  ", " "]))
    tail = draw(title_tail)
    sep = draw(st.sampled_from([": ", ": ", ": ", ":", " : ", " – "]))
    return " ".join(f"Figure{sp}{fid}{sep}{tail}".split(" ")).strip()


@st.composite
def figures(draw, o, lo=0, hi=4, unique=True):
    n = draw(st.integers(lo, hi))
    ids = draw(st.lists(fig_id, min_size=n, max_size=n, unique=True))
    out = []
    for i in range(n):
        f = draw(figure_body(o))
        f["id"] = ids[i]
        f["cap"] = draw(caption(ids[i]))
        f["wrap"] = draw(chance(1, 12))
        out.append(f)
    return out


spec_title = st.one_of(
    phrase(T_CLEAN, 1, 5).map(lambda w: w + " Specification"),
    st.just("Generic® Specification"),
    any_text,
    phrase(T_VALUE, 10, 22).map(lambda w: w + " Größe"),
)
spec_rev = st.one_of(
    st.tuples(st.integers(0, 9), st.integers(0, 9), st.sampled_from(["", "a", "C", "c"])).map(lambda p: f"{p[0]}.{p[1]}{p[2]}"),
    st.sampled_from(["1.0C", "2.0", "Draft-3", "é"]),
)


@st.composite
def document(draw, o, lo=0, hi=4):
    return {"spec": draw(spec_title), "rev": draw(spec_rev), "figs": draw(figures(o, lo, hi))}


styles = st.fixed_dictionaries(
    {"ws": st.integers(0, 3), "split": st.sampled_from([0, 0, 1, 3, 7]), "cls": st.integers(0, 2), "capth": st.integers(0, 1)}
)


# -- tables that are no figures, not recognised or broken --------------------------


@st.composite
def bad_row(draw, t, cols, key):
    kinds = ["<span>no paragraph</span>", "", "<ul><li><p>item</p></li></ul>"]
    if t != "values" and [c[0] for c in cols].index("desc") >= 2:
        kinds.append("short")
    return {"r": "bad", "key": key, "kind": draw(st.sampled_from(kinds))}


@st.composite
def break_fig(draw, fig, depth=0):
    """The figure with one row that cannot be extracted, itself or in a nested table."""
    rows = list(fig["rows"])
    subs = [i for i, r in enumerate(rows) if r.get("sub")]
    stop = next((i for i, r in enumerate(rows) if r["r"] == "notes"), len(rows))
    subs = [i for i in subs if i < stop]
    if subs and draw(chance(2, 3)):
        i = draw(st.sampled_from(subs))
        sub = list(rows[i]["sub"])
        j = draw(st.integers(0, len(sub) - 1))
        sub[j] = draw(break_fig(sub[j], depth + 1))
        rows[i] = dict(rows[i], sub=sub)
    else:
        key = {"t": "77h"} if fig["t"] == "values" else {"t": "7:0", "lo": 0, "hi": 7}
        rows.insert(draw(st.integers(0, stop)), draw(bad_row(fig["t"], fig["cols"], key)))
    return dict(fig, rows=rows)


OTHERH = ["Index", "Field", "Command", "Bits and pieces", "Bytes Transferred", "Value of X", "Größe", "Type", "O/M", "", "Attribute", "Description", "Definition"]


@st.composite
def other_fig(draw):
    """columns which are none of the recognised combinations"""
    hs = draw(st.lists(st.sampled_from(OTHERH), min_size=0, max_size=5))
    k = draw(st.integers(0, 5))
    if k == 0:  # a key without a description
        hs = [h for h in hs if h not in ("Attribute", "Description", "Definition")]
        hs.insert(draw(st.integers(0, len(hs))), draw(st.sampled_from(["Bits", "Bytes", "Bit"])))
    elif k == 1 and len(hs) >= 2:
        hs = [h for h in hs if h not in ("Description", "Definition")] + ["Index", "Field"]
        hs.insert(draw(st.integers(0, len(hs))), "Value")
    n = draw(st.integers(0, 3))
    rows = [{"r": "f", "x": [draw(any_text) for _ in hs]} for _ in range(n if hs else 0)]
    return {"t": "other", "cols": [["x", h] for h in hs], "rows": rows}


def no_caption():
    return st.sampled_from(["Table 5: Numbers", "Fig 3", "figure 9: lower case", "", "FIGURE 4: Upper", "F igure 1", "Revision History"])


def no_id():
    return st.sampled_from(["Figure", "Figure: Commands", "See Figure 3: Commands", "Figures 3 and 4", "Sub-Figure 8", "“Figure 3”", "Figure3: Glued", "Figure :x"])


@st.composite
def mixed_figs(draw, o, lo=0, hi=8, kinds=("ok", "other", "nocap", "noid", "broken", "empty"), numeric=False):
    n = draw(st.integers(lo, hi))
    if numeric:
        ids = draw(st.lists(st.integers(0, 999).map(str), min_size=n, max_size=n, unique=True))
    else:
        ids = draw(st.lists(st.one_of(fig_id, st.sampled_from("12")), min_size=n, max_size=n))
    out = []
    for i in range(n):
        kind = draw(st.sampled_from(("ok",) + kinds)) if n > 1 or "ok" not in kinds else draw(st.sampled_from(kinds))
        if kind == "empty":
            out.append({"skip": True, "raw": draw(st.sampled_from(["<table></table>", "<table/>", "<table><tr></tr></table>", "<p>Figure 3: text</p>",
                        "<table><tr><td><p>x</p></td></tr></table>", "<div><table><tr><td><p>Figure 1: inside</p></td></tr></table></div>"]))})
            continue
        f = draw(other_fig()) if kind == "other" else draw(figure_body(o))
        if kind == "broken":
            f = draw(break_fig(f))
        f["wrap"] = draw(chance(1, 6))
        f["id"], f["cap"] = ids[i], draw(caption(ids[i]))
        if kind == "nocap":
            f["cap"], f["skip"] = draw(no_caption()), True
        elif kind == "noid":
            f["cap"], f["id"] = draw(no_id()), None
        elif draw(chance(1, 10)):
            f["cap"] = [f["cap"], draw(sentence())]
        elif draw(chance(1, 12)):
            # nothing to read in it
            f["cap"] = [f["cap"], ["raw", draw(st.sampled_from(["<table><tr><td></td></tr></table>", "<table/>", "<p></p>", "<ul></ul>"]))]]
        f["kind"] = kind
        out.append(f)
    return out


@st.composite
def mixed_document(draw, o, **kw):
    return {"spec": draw(spec_title), "rev": draw(spec_rev), "figs": draw(mixed_figs(o, **kw))}


def fill_values(doc):
    """Gives every value table an entry: those without are a listed finding of their own."""
    def walk(f):
        if f.get("t") == "values" and "raw" not in f:
            kinds = [r["r"] for r in f["rows"]]
            if "notes" in kinds:
                kinds = kinds[: kinds.index("notes")]
            if not set(kinds) & {"f", "res", "ell", "ellkey"}:
                f["rows"].insert(0, {"r": "res", "key": {"t": "0h"}, "word": "Reserved"})
        for r in f.get("rows", []):
            for k in ("sub", "subx", "suba"):
                for s in r.get(k, []):
                    walk(s)

    import copy

    doc = copy.deepcopy(doc)
    for f in doc["figs"]:
        walk(f)
    return doc


@st.composite
def split_keys(draw, docs):
    """some values and offsets stand in two paragraphs of their cell"""
    doc = draw(docs)
    bits = draw(st.binary(min_size=4, max_size=24))
    n = 0

    def walk(f):
        nonlocal n
        for r in f.get("rows", []):
            for s in r.get("sub", []):
                walk(s)
            if r["r"] not in ("f", "res") or f["t"] not in ("values", "bits", "bytes"):
                continue
            n += 1
            b = bits[n % len(bits)]
            if b % 5:
                continue
            t = r["key"]["t"]
            if f["t"] == "values":
                i = t.find(" ")
                ps = [t[:i], t[i + 1 :]]
            elif "lo" in r["key"]:
                i = t.find(":")
                ps = [t[:i], t[i:]] if b & 1 else [t[: i + 1], t[i + 1 :]]
            else:
                continue
            if i > 0 and all(x == x.strip() != "" for x in ps):
                r["key"] = dict(r["key"], ps=ps)

    for f in doc["figs"]:
        walk(f)
    return doc


TITLES = ["Generic® Specification", "NVM Express® NVM Command Set Specification", "NVM Express® Zoned Namespace Command Set Specification",
          "NVM Express® Management Interface Specification", "NVM Express® Key Value Command Set Specification"]
REVS = ["1.0c", "1.0c", "1.1c", "1.2c", "1.0c"]
