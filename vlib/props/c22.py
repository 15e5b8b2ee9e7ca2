import hashlib
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import boot, docx, dstrat, render, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.props.c21 import Conv

RULE = "a command line with at least two inputs, or with a bad input, or with an output directory that does not exist or is omitted"
GOOD = ("html", "docx")
# what is wrong with an input
MISSING = ("missing", "dir")  # refused before anything is processed
WRONG = ("txt", "json", "htm", "nosuffix", "HTML", "notxml", "empty", "nometa", "norev", "notutf8", "notzip", "nodoc", "noheader", "badxml")
# options the command does not know, or cannot use
BADOPTS = (["--lint-ignore=X9999"], ["--lint-ignore="], ["--bogus"], ["--lint-ignore=T1001;T1002"], ["-o"], ["--output", "{file}"], ["--output", "{file}.json"],
           ["-o", "{file}.html"])


def data(inp):
    """(suffix, bytes or None) of an input"""
    k, doc = inp["kind"], inp["doc"]
    html = render.html(doc).encode()
    if k in ("html", "broken"):
        return ".html", html
    if k == "docx":
        c = Conv([3, 1, 4, 1, 5])
        rich = inp.get("rich") or {"styles": [], "nums": None, "body": []}
        return ".docx", docx.build({"head": [[doc["spec"].replace(",", ";") + ", Revision " + doc["rev"]]], "styles": rich["styles"], "nums": rich["nums"],
                                    "body": [["t", c.table(f)] for f in doc["figs"] if "raw" not in f] + rich["body"]})
    if k == "missing":
        return ".html", None
    if k in ("txt", "json", "htm", "HTML"):
        return "." + k, html
    if k == "nosuffix":
        return "", html
    if k == "notxml":
        return ".html", html.replace(b"</body>", b"")
    if k == "empty":
        return ".html", b""
    if k == "nometa":
        return ".html", b"<html><head/><body/></html>"
    if k == "norev":
        return ".html", html.replace(b"data-revision", b"data-version")
    if k == "notutf8":
        return ".html", html.replace(b"<body>", b"<body><!-- \xff\xfe -->")
    if k == "notzip":
        return ".docx", html
    import io
    import zipfile

    buf = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(data(dict(inp, kind="docx"))[1])) as z, zipfile.ZipFile(buf, "w") as out:
        for n in z.namelist():
            if n == {"nodoc": "word/document.xml", "noheader": "word/header1.xml"}.get(k):
                continue
            out.writestr(n, z.read(n) if k != "badxml" or n != "word/document.xml" else z.read(n)[:-9])
    return ".docx", buf.getvalue()


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = hashlib.sha1(fh.read()).hexdigest()
    return out


def date(path, age):
    """Make a file older, or newer, than it is."""
    if age:
        t = path.stat().st_mtime + age
        os.utime(path, (t, t))


def command(argv, cwd):
    """Exit status of the real command in a process of its own."""
    env = dict(os.environ, PYTHONPATH=boot.SRC, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-m", "spex"] + [str(a) for a in argv], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    return r.returncode


def outputs(inp):
    return [".json"] if inp["kind"] != "docx" else [".json", ".html", ".css"]


def run_with(case, command):
    skip = case["skip"]
    labels = set()
    with sut.Dir() as d:
        d = d.resolve()
        (d / "in").mkdir()
        (d / "work").mkdir()
        names, want, touched, taken = [], [], [], set()
        for i, inp in enumerate(case["inputs"]):
            suf, blob = data(inp)
            # names in different directories, relative to the working directory or absolute
            sub = d / "in" / f"d{i % 2}"
            sub.mkdir(exist_ok=True)
            stem = inp["name"] if case["alike"] and inp["name"][0] != "-" else f"{inp['name']}{i}"
            p = sub / f"{stem}{suf}"
            if inp["kind"] == "dir":
                p = sub / f"{stem}.html"
            if p.exists() or str(p) in taken:
                p = sub / f"{stem}{i}{p.suffix}"
            taken.add(str(p))
            if inp["kind"] == "dir":
                p.mkdir()
            elif blob is not None:
                p.write_bytes(blob)
            names.append(str(p) if i % 3 else os.path.join("..", "in", sub.name, p.name))
            # the same input on its own
            ref = None
            if inp["kind"] in GOOD or inp["kind"] == "broken":
                (d / f"ref{i}").mkdir()
                o = sut.process(p, d / f"ref{i}", skip, case["ignore"])
                if inp["kind"] in GOOD or skip:
                    need(o.exc is None, f"processing an input on its own failed: {o.exc!r}")
                    ref = {p.stem + s: sut.read(d / f"ref{i}" / (p.stem + s)) for s in outputs(inp)}
            want.append(ref)
            touched.append({p.stem + s for s in (".json", ".html", ".css")})
        before = snapshot(d / "in")
        out = {"omitted": d / "work", "there": d / "out", "new": d / "fresh", "nested": d / "a" / "b" / "c", "relative": d / "work" / "x" / "y"}[case["out"]]
        if case["out"] == "there":
            out.mkdir()
            (out / "keep.txt").write_text("keep")
        # files of earlier runs, and names under which nothing can be written
        fault, older = None, set()
        if out.is_dir() and len(set(map(frozenset, touched))) == len(touched):
            for i in case["stale"]:
                for n in touched[i] if i < len(touched) else ():
                    (out / n).write_text(STALE)
                    date(out / n, case["age"])
                    older.add(n)
                    labels.add("old output")
            if case["fault"] is not None and case["fault"][0] < len(touched):
                fault, sfx, how = case["fault"]
                n = next(n for n in touched[fault] if n.endswith(sfx))
                if want[fault] is None or n not in want[fault]:
                    fault = None
                else:
                    (out / n).unlink(missing_ok=True)
                    if how == "dir":
                        (out / n).mkdir()
                    else:
                        os.symlink("/dev/full", out / n)
                    labels |= {"unwritable " + sfx, "nontrivial"}
        opts = []
        if case["out"] != "omitted":
            o = os.path.join("x", "y") if case["out"] == "relative" else str(out)
            opts.append({0: ["-o", o], 1: ["--output", o], 2: ["--output=" + o], 3: ["-o" + o]}[case["spell"] % 4])
        if skip:
            opts.append([["-s"], ["--skip-figure-on-error"]][case["spell"] % 2])
        if case["ignore"]:
            opts.append([["--lint-ignore=" + ",".join(case["ignore"])], ["--lint-ignore", ", ".join(c.lower() for c in case["ignore"])]][case["spell"] % 2])
        if case["validate"]:
            opts.append(["--validate-json"])
        if case["badopt"] is not None:
            opts.append([a.replace("{file}", os.path.join("..", "in", "afile")) for a in case["badopt"]])
            for n in ("afile", "afile.json", "afile.html"):
                (d / "in" / n).write_text("x")
            before = snapshot(d / "in")
        if case["back"] and not (case["badopt"] == ["-o"]):
            argv = names + [a for o in opts for a in o]
        else:
            tail = [o for o in opts if o == ["-o"]]
            opts = [o for o in opts if o != ["-o"]]
            argv = [a for o in opts for a in o] + names + [a for o in tail for a in o]
        code = command(argv, d / "work")
        bad = [i for i, inp in enumerate(case["inputs"]) if want[i] is None]
        fine = not bad and case["badopt"] is None
        if fine and fault is not None:
            # whoever claims success has to have found a way
            for n, raw in want[fault].items() if code == 0 else ():
                need((out / n).is_file() and not (out / n).is_symlink() and (out / n).read_bytes() == raw,
                     f"exit status is 0, though {n} could not be written")
            if code:
                bad, fine = [fault], False
        elif fine:
            need(code == 0, f"exit status is {code}, though all inputs can be processed")
        else:
            what = f"input {bad[0]} ({case['inputs'][bad[0]]['kind']})" if bad else f"option {case['badopt']}"
            need(code != 0, f"exit status is 0 in spite of {what}")
        same(snapshot(d / "in"), before, "input files")
        if len(set(map(frozenset, touched))) < len(touched):
            labels.add("inputs of equal name")
        early = any(case["inputs"][i]["kind"] in MISSING for i in bad) or case["badopt"] is not None
        for i, ref in enumerate(want):
            if bad and i > bad[0] or early or fault is not None and i >= fault:
                break
            for n, raw in (ref or {}).items():
                if any(n in (touched[j] if want[j] is None else want[j]) for j in range(i + 1, len(want))):
                    continue  # replaced by the output of a later input of that name
                need((out / n).is_file(), f"output {n} of input {i} is missing")
                need((out / n).read_bytes() == raw, f"output {n} of input {i} differs from that of a run on its own")
        if fine:
            expected = {n for ref in want for n in ref} | {"spex.log"}
            extra = set(os.listdir(out)) - expected - older - {"keep.txt", "x"}
            need(not extra, f"unexpected files {sorted(extra)} in the output directory")
            if case["out"] != "omitted":
                extra = set(os.listdir(d / "work")) - older - {"spex.log", "x"}
                need(not extra, f"unexpected files {sorted(extra)} in the working directory")
        if case["out"] == "there":
            need((out / "keep.txt").read_text() == "keep", "another file in the output directory was changed")
    for inp in case["inputs"]:
        labels.add("input " + inp["kind"])
    labels.add("output " + case["out"])
    if len(case["inputs"]) > 1 or bad or case["out"] in ("omitted", "new", "nested", "relative"):
        labels.add("nontrivial")
    labels.add("fine" if fine else "failing")
    return labels


def run(case):
    return run_with(case, sut.cli)


def run_command(case):
    return run_with(case, command)


STALE = """<html><head><meta charset="utf-8" data-spec="Old" data-revision="9"/></head><body></body></html>""" + " " * 5000


o = strat.Opt(rows=(1, 4), nested=1, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1, more=False)


ages = st.sampled_from([0, 0, -100000, 3600, 10 ** 8])
full = dstrat.Opt(rows=2, cols=2, blocks=(0, 2), runs=2, depth=1, text=dstrat.words, listy=4)
rich = dstrat.document(full, styles=True, nums=True, hi=1).map(lambda d: {k: d[k] for k in ("styles", "nums", "body")})


@st.composite
def inputs(draw, bad):
    kind = draw(st.sampled_from(["html", "html", "docx"]))
    if draw(st.integers(0, 99)) < bad:
        kind = draw(st.sampled_from(("broken", "broken", "broken") + MISSING + WRONG))
    kinds = ("ok", "other", "noid") if kind != "broken" else ("ok", "noid")
    doc = {"spec": draw(strat.spec_title), "rev": draw(strat.spec_rev), "figs": draw(strat.mixed_figs(o, lo=0, hi=2, kinds=kinds))}
    doc["spec"] = doc["spec"].replace(",", ";")
    if kind == "broken":
        f = draw(strat.break_fig(draw(strat.figure_body(o))))
        f["id"], f["cap"] = "7", "Figure 7: Broken"
        doc["figs"].insert(draw(st.integers(0, len(doc["figs"]))), f)
    if "evision" in doc["spec"] or not doc["spec"].strip(";  ."):
        doc["spec"] = "Generic Specification"
    return {"kind": kind, "doc": strat.fill_values(doc), "name": draw(st.sampled_from(["a", "doc ", "x.y", "é", "v1.0 (c)", "a&b", "-z", "v.html", "b.docx.c", "x.html5", "d.json"]))}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    alike = draw(strat.chance(1, 3))
    bad = draw(st.sampled_from([0, 0, 25, 60]))
    ins = draw(st.lists(inputs(bad), min_size=n, max_size=n))
    if alike:
        name = ins[0]["name"]
        for inp in ins[1:]:
            if draw(strat.chance(2, 3)):
                inp["name"] = name
    skip = draw(st.booleans())
    for inp in ins:
        if inp["kind"] == "docx" and skip and draw(st.booleans()):
            inp["rich"] = draw(rich)
    badopt = draw(st.sampled_from(BADOPTS)) if draw(strat.chance(1, 10)) else None
    fault, stale = None, draw(st.lists(st.integers(0, 4), max_size=3, unique=True))
    if draw(strat.chance(1, 5)):
        fault = [draw(st.integers(0, n - 1)), draw(st.sampled_from([".json", ".html", ".css", ".css"])), draw(st.sampled_from(["dir", "dir", "full"]))]
        if fault[1] != ".json" and ins[fault[0]]["kind"] in GOOD:
            ins[fault[0]]["kind"] = "docx"
        stale.append(fault[0])
        alike = False
    return {"inputs": ins, "alike": alike, "skip": skip, "out": draw(st.sampled_from(["omitted", "there"] if fault else ["omitted", "there", "new", "nested", "relative"])),
            "ignore": draw(st.lists(st.sampled_from(["T1001", "T1002", "L1002", "L1004", "R1001", "T1006", "T1007"]), max_size=2, unique=True)),
            "validate": draw(st.booleans()), "spell": draw(st.integers(0, 3)), "back": draw(st.booleans()), "badopt": badopt,
            "stale": stale, "fault": fault, "age": draw(ages)}


SUBS = [
    Sub("main", cases(), run, 800),
    Sub("command", cases(), run_command, 96),
]
