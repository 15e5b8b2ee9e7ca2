import hashlib
import os
import stat

from hypothesis import strategies as st

from vlib import strat, sut, web
from vlib.core import Sub, judging, need, same
from vlib.props import c22, c23

RULE = "a history with an upload whose file name holds a path separator or parent directory, or which fails or is abandoned"
ASSUMPTIONS = ["file names point outside of the service's directories only within the check's own scratch directory"]
# Names are put together from these parts only: whatever the code under test does with a
# name, it cannot reach outside the scratch directory, which holds the service's own
# directories five levels deep.
PARTS = ["a", "spec", "x y", "é", "bystander", "keep", "tmp", ".", "%2e%2e", "%2F", "con", "$HOME", "*", "a;b", "#", "a\\..\\b", "..\\..\\c", "-rf", " ", "~q", "a'b", "{x}", "q", "r", "s", "t", "sub"]
LAST = ["spec", "bystander", "keep", "a b", "x.y", "é", "style", "", "..", ".", "..a", "...", "-o", "'q'", "a\\b", "tmp"]
SUFFIX = [".html", ".html", ".docx", ".txt", "", ".json", ".css", ".HTML", "/", "/.", "/..", ".html/", ".html/..", "\\..\\x.html"]
ROOT = "@ROOT@"


def snapshot(root, skip):
    """Everything below root except what is below one of the directories in skip"""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in list(dirs):
            p = os.path.join(base, n)
            if p in skip:
                dirs.remove(n)
                continue
            out[os.path.relpath(p, root)] = ("dir", stat.S_IMODE(os.lstat(p).st_mode))
        for n in files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = ("file", stat.S_IMODE(os.lstat(p).st_mode), hashlib.sha1(fh.read()).hexdigest())
    return out


BYSTANDERS = ["bystander.html", "q/keep.json", "q/r/keep.css", "q/r/s/t/bystander.html", "q/r/s/t/spec.html", "q/r/s/t/tmp/bystander.html",
              "q/r/s/t/tmp/keep.json", "q/r/s/t/tmp/sub/spec.html", "q/r/s/t/tmp/sub/style.css", "home/keep.html", "abs/spec.html", "abs/bystander.json"]


def run(case):
    labels = set()

    async def go(s):
        root = s.root
        for b in BYSTANDERS:
            p = os.path.join(root, b)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write("<html/> " + b)
        os.makedirs(os.path.join(root, "q/r/s/t/work"))
        os.chdir(os.path.join(s.tmp, "..", "work"))
        foreign = {os.path.join(s.tmp, "sub")}

        def own():
            """directories which the service has in the directory for temporary files"""
            return {os.path.join(s.tmp, n) for n in os.listdir(s.tmp)
                    if os.path.isdir(os.path.join(s.tmp, n)) and not os.path.islink(os.path.join(s.tmp, n))} - foreign

        # what is there before any upload; the service's own directories are its business
        base = own()
        before = snapshot(root, base)
        named = {n.split("/")[0] for n in PARTS + LAST}

        def look(what):
            now = snapshot(root, {d for d in own() if os.path.basename(d) not in named})
            for n in sorted(set(before) | set(now)):
                if before.get(n) != now.get(n):
                    verb = "created" if n not in before else "removed" if n not in now else "changed"
                    need(False, f"{what}: {verb} {n}, outside of the service's directories")

        reqs, meta = [], {}
        for up in case["ups"]:
            suf, blob = c22.data(up["doc"])
            name = up["name"].replace(ROOT, root)
            r = web.upload(name, blob, enc=up["enc"], chunk=[1 << 20, 700][up["chunk"]], abort=up["abort"], mime=up["mime"])
            reqs.append(r)
            meta[r] = name
        live = []

        def ended(r):
            live.remove(r)
            if r.abort is not None and r.gone:
                labels.add("abandoned")
            else:
                with judging("event stream"):
                    labels.add("completed" if r.status == 200 and web.completion(r) else f"failed {r.status}")
            del r.exc
            if not live:
                left = own() - base
                if left:
                    import gc

                    gc.collect()
                    left = own() - base
                need(not left, "temporary files of an upload remain after its response has ended")

        await s.run(reqs, case["turns"], live.append, ended, tick=lambda: look("during uploads"))
        await web.idle()
        look("after uploads")
        need(not own() - base, "temporary files of an upload remain after its response has ended")

    web.serve(go)
    for up in case["ups"]:
        n = up["name"]
        if n.startswith(ROOT):
            labels.add("absolute name")
        if ".." in n.split("/"):
            labels.add("parent directory")
        if "/" in n:
            labels.add("separator")
    if labels & {"abandoned", "absolute name", "parent directory", "separator"} or any(x.startswith("failed") for x in labels):
        labels.add("nontrivial")
    return labels


@st.composite
def names(draw):
    k = draw(st.integers(0, 9))
    up = draw(st.integers(0, 4)) if k < 6 else 0
    mid = draw(st.lists(st.sampled_from(PARTS), max_size=2))
    last = draw(st.sampled_from(LAST)) + draw(st.sampled_from(SUFFIX))
    sep = draw(st.sampled_from(["/", "/", "/", "//", "/./"]))
    parts = [".."] * up + mid + [last]
    if k in (0, 1, 2):
        parts = [".."] * up + draw(st.sampled_from([["sub", "spec.html"], ["bystander.html"], ["keep.json"], ["keep.html"], ["x.html"], ["new", "x.html"], ["sub", "x.docx"], ["spec.html"], ["x.docx"]]))
    n = sep.join(parts)
    if k in (5, 6):
        n = ROOT + "/" + sep.join(draw(st.sampled_from([["abs", "spec.html"], ["abs", "x.html"], ["bystander.html"], ["home", "keep.html"], ["new.html"], ["abs", "x.docx"], ["abs", "bystander.html"], ["q", "x.html"], ["q", "r", "s", "t", "work", "x.html"]])))
    while n.startswith("/"):
        n = n[1:]
    # never above the scratch directory, wherever the walk starts
    depth = low = 0
    for p in n.replace("\\", "/").replace("%2e", ".").replace("%2F", "/").split("/"):
        depth += -1 if p == ".." else (0 if p in ("", ".") else 1)
        low = min(low, depth)
    return n if low >= -4 else "x.html"


@st.composite
def uploads(draw):
    return {"doc": draw(c23.documents()), "name": draw(names()), "enc": draw(st.integers(0, 2)), "chunk": draw(st.integers(0, 1)),
            "abort": draw(st.integers(0, 12)) if draw(strat.chance(1, 5)) else None, "mime": draw(st.sampled_from(["text/html", "application/octet-stream", "text/plain"]))}


@st.composite
def cases(draw):
    ups = draw(st.lists(uploads(), min_size=1, max_size=3))
    turns = [b % 5 for b in draw(st.binary(min_size=4, max_size=40))] if draw(st.booleans()) else []
    return {"ups": ups, "turns": turns}


SUBS = [Sub("uploads", cases(), run, 1600)]
