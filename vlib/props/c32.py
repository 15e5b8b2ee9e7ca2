import base64
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from vlib import boot, model, strat, sut, web
from vlib.core import Sub, need
from vlib.props import c22

RULE = "an environment with another character encoding, or hash seed, or other files in the output directory; and documents with non-ASCII text or a broken figure"
ASSUMPTIONS = ["the only encodings installed are ASCII and UTF-8; file names are kept within ASCII where the environment's encoding is ASCII"]

LOCALES = {
    "utf8": {"LC_ALL": "C.utf8"},
    "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "posix": {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii:strict"},
    "ctype": {"LC_CTYPE": "C", "LANG": "C.utf8", "LC_ALL": "", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "utf8mode": {"LC_ALL": "C", "PYTHONUTF8": "1"},
    "io": {"LC_ALL": "C.utf8", "PYTHONIOENCODING": "ascii:strict"},
    "latin": {"LC_ALL": "C.utf8", "PYTHONIOENCODING": "latin-1:strict"},
}
PLAIN = {"LC_ALL": "C.utf8", "PYTHONHASHSEED": "0", "TZ": "UTC"}


def environ(e):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "PYTHON", "SPEX", "LANG", "LOGURU", "TZ"))}
    env.update(PYTHONPATH=boot.SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONBREAKPOINT="0", TERM="dumb")
    env.update(e)
    return env


def setting(env):
    e = dict(LOCALES[env["locale"]], PYTHONHASHSEED=str(env["seed"]), TZ=env["tz"])
    if env["debug"] is not None:
        e["SPEX_DEBUG"] = env["debug"]
    if env["width"]:
        e["COLUMNS"] = str(env["width"])
    return e


def invoke(argv, cwd, env):
    r = subprocess.run([sys.executable, "-m", "spex"] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=300)
    return r.returncode


def tidy(log):
    """Addresses of objects in messages are accidental."""
    return re.sub(rb"0x[0-9a-f]+", b"0x", log)


def run_command(case):
    env = case["env"]
    labels = {"locale " + env["locale"]}
    with sut.Dir() as d:
        d = d.resolve()
        names = []
        for i, inp in enumerate(case["inputs"]):
            suf, blob = c22.data(inp)
            names.append(f"in{i}{suf}")
        got = []
        for k, e in enumerate((PLAIN, setting(env))):
            w = d / str(k)  # the path is in no output
            (w / "in").mkdir(parents=True)
            (w / "work").mkdir()
            (w / "out").mkdir()
            for n, inp in zip(names, case["inputs"]):
                (w / "in" / n).write_bytes(c22.data(inp)[1])
            if k and env["stale"]:
                for n in names:
                    for s in (".json", ".html", ".css"):
                        old = w / "out" / (n.rsplit(".", 1)[0] + s)
                        old.write_text("stale é" * env["stale"], encoding="utf-8")
                        c22.date(old, env["age"])
                (w / "work" / "spex.log").write_text("stale\n" * env["stale"])
            opts = ["-s"] if case["skip"] else []
            if k:
                opts += [[], ["-v"], ["--verbose"], ["--no-verbose"]][env["verbose"]]
                opts += [[], ["--validate-json"], ["--no-validate-json"]][env["validate"]]
            if k and env["away"]:
                # another directory to run in, and other spellings of the paths
                (w / "work" / "x").mkdir()
                cwd, base = w / "work" / "x", str(w)
            else:
                cwd, base = w / "work", ".."
            code = invoke(opts + ["-o", f"{base}/out"] + [f"{base}/in/{n}" for n in names], cwd, environ(e))
            files = {}
            for f in sorted(os.listdir(w / "out")):
                files[f] = (w / "out" / f).read_bytes()
            lp = cwd / "spex.log"
            need(lp.is_file(), "no log was written")
            log = tidy(lp.read_bytes().replace(base.encode() + b"/", b""))
            got.append((code, files, log))
        (c0, f0, l0), (c1, f1, l1) = got
        what = f" under {json.dumps(env, sort_keys=True)}"
        need(c0 == c1, f"exit status is {c1} instead of {c0}{what}")
        if case["skip"] or all(inp["kind"] != "broken" for inp in case["inputs"]):
            need(c0 == 0, f"exit status is {c0} even under ordinary settings")
        if env["stale"]:
            stems = {f.rsplit(".", 1)[0] for f in f0}
            f1 = {f: b for f, b in f1.items() if f in f0 or (f.rsplit(".", 1)[0] in stems and not b.startswith(b"stale"))}
        need(sorted(f0) == sorted(f1), f"files {sorted(f1)} instead of {sorted(f0)} were written{what}")
        for f in f0:
            need(f0[f] == f1[f], f"{f} differs{what}")
        a, b = l0.splitlines(), l1.splitlines()
        need(len(a) == len(b), f"the log has {len(b)} entries instead of {len(a)}{what}")
        for x, y in zip(a, b):
            need(x == y, f"a log entry differs{what}: {y[:300]!r} instead of {x[:300]!r}")
        odd = any(b"\xc3" <= bytes([c]) for raw in f0.values() for c in raw if c > 127)
        if b'"exception"' in l0:
            labels.add("exception logged")
        if odd:
            labels.add("non-ASCII")
    if (odd or b'"exception"' in l0) and (env["locale"] not in ("utf8", "utf8mode") or env["seed"] or env["stale"]):
        labels.add("nontrivial")
    return labels


SERVE = """import sys, json, base64
sys.path[:0] = sys.argv[1:3]
sys.path.append(sys.argv[3])
import os
from vlib import web
blobs = [(n, base64.b64decode(b)) for n, b in json.loads(sys.stdin.read())]
async def go(s):
    out = []
    for n, b in blobs:
        r = web.upload(n, b)
        await s.run([r])
        ev = [r.status, r.complete, web.events(r) if r.status == 200 else None]
        url = web.completion(r) if r.status == 200 else None
        pages = []
        if url:
            h = url.rsplit("/", 1)[-1]
            for t in (url, url + "?bundle=1", "/json/" + h, "/html/" + h):
                g = await s.get(t)
                pages.append([g.status, g.complete, repr(g.exc), base64.b64encode(g.content).decode()])
        out.append([ev, repr(r.exc), pages])
    return out
res = web.serve(go)
with open("result", "w", encoding="ascii") as fh:
    fh.write(json.dumps(res))
os._exit(0)
"""


def content(page):
    """A page, with the sets of names its script is given in some order."""
    data = base64.b64decode(page)
    vals = web.Page(data).values()
    text = data.decode("utf-8")
    for raw, _ in vals:
        text = text.replace(raw, "", 1)
    return text, [sorted(v) if isinstance(v, list) and all(isinstance(x, str) for x in v) else v for _, v in vals]


def run_service(case):
    env = case["env"]
    labels = {"locale " + env["locale"]}
    blobs = []
    for i, inp in enumerate(case["inputs"]):
        suf, blob = c22.data(inp)
        blobs.append([f"in{i}{suf}", base64.b64encode(blob).decode()])
    got = []
    with sut.Dir() as d:
        for k, e in enumerate((PLAIN, setting(env))):
            w = d / str(k)
            w.mkdir()
            r = subprocess.run([sys.executable, "-c", SERVE, boot.SRC, boot.VERIF, boot.VT_SITE], cwd=w, env=environ(e), input=json.dumps(blobs), text=True, errors="backslashreplace",
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
            if not (w / "result").is_file():
                # the service could not even be started, or its stream is not to be understood
                need(k == 0, f"the service fails under {json.dumps(env)}: {r.stderr[-300:]}")
                raise RuntimeError(r.stderr[-2000:])
            got.append(json.loads((w / "result").read_text()))
    what = f" under {json.dumps(env, sort_keys=True)}"
    for n, a, b in zip((b[0] for b in blobs), *got):
        need(a[0] == b[0] and a[1] == b[1], f"the upload of {n} is answered with {b[:2]} instead of {a[:2]}{what}")
        for page, x, y in zip(("report", "bundle", "json", "html"), a[2], b[2]):
            need(x[:3] == y[:3], f"{page} of {n} is answered with {y[:3]} instead of {x[:3]}{what}")
            need(x[3] == y[3] or page in ("report", "bundle") and content(x[3]) == content(y[3]), f"{page} of {n} differs{what}")
    if env["locale"] not in ("utf8", "utf8mode"):
        labels.add("nontrivial")
    return labels


envs = st.fixed_dictionaries({
    "locale": st.sampled_from(["ascii", "ascii", "posix", "ctype", "utf8mode", "io", "latin", "utf8"]),
    "seed": st.integers(0, 9), "tz": st.sampled_from(["UTC", "Asia/Kathmandu", "XYZ+11", ""]),
    "debug": st.sampled_from([None, None, "1", "true", "no", ""]), "width": st.sampled_from([0, 1, 20]),
    "verbose": st.integers(0, 3), "validate": st.integers(0, 2), "stale": st.sampled_from([0, 0, 1, 9000]), "away": st.booleans(), "age": c22.ages,
})
SPECIAL = ["é", "≥ 8", "“x”", "\u00a0", "µs", "😀", "中文", "\u2028", "É"]


@st.composite
def documents(draw, bad):
    inp = draw(c22.inputs(bad))
    if inp["kind"] in c22.MISSING + c22.WRONG:
        inp["kind"] = "html"
    if inp["kind"] == "docx" and bad == 0 and draw(st.booleans()):
        inp["rich"] = draw(c22.rich)
    # most real documents hold some characters beyond ASCII
    for f in inp["doc"]["figs"]:
        if isinstance(f.get("cap"), str) and draw(strat.chance(1, 2)):
            f["cap"] = f["cap"] + " " + draw(st.sampled_from(SPECIAL))
    if draw(strat.chance(1, 3)):
        inp["doc"]["spec"] += " " + draw(st.sampled_from(SPECIAL[:7]))
    return inp


@st.composite
def cases(draw, hi, bad=40):
    return {"inputs": draw(st.lists(documents(bad), min_size=1, max_size=hi)), "env": draw(envs), "skip": draw(strat.chance(4, 5))}


SUBS = [
    Sub("command", cases(4), run_command, 120),
    Sub("service", cases(3, 0), run_service, 40),
]
