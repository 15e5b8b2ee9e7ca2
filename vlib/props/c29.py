import json
import linecache
import os
import traceback

from hypothesis import strategies as st

from vlib import model, render, strat, sut
from vlib.core import Sub, judging, need, same
from vlib.props.c22 import command

RULE = "a run in which at least one figure cannot be extracted (runs, sink), or an exception with a cause (chains)"


def parse_log(raw):
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError as e:
        need(False, f"the log is not UTF-8: {e}")
    need(text.endswith("\n") or not text, "the last entry of the log is not ended")
    out = []
    for i, line in enumerate(text.split("\n")[:-1]):
        try:
            e = json.loads(line)
        except ValueError as err:
            need(False, f"line {i + 1} of the log is no JSON: {err}: {line[:200]!r}")
        need(isinstance(e, dict), f"line {i + 1} of the log is no object")
        for k, t in (("level", str), ("msg", str), ("file", str), ("func", str), ("line", int)):
            need(isinstance(e.get(k), t), f"line {i + 1} of the log lacks {k}: {line[:300]}")
        out.append(e)
    return out


def check_exc(e, what):
    need(isinstance(e, dict), f"{what} has no exception")
    need(isinstance(e.get("type"), str) and e["type"], f"the exception of {what} has no type")
    need(isinstance(e.get("msg"), str), f"the exception of {what} has no message")
    fr = e.get("frames")
    need(isinstance(fr, list) and fr, f"the exception of {what} has no frames")
    for f in fr:
        for k, t in (("name", str), ("file", str), ("lineno", int)):
            need(isinstance(f.get(k), t), f"a frame of the exception of {what} lacks {k}")
        if os.path.isabs(f["file"]) and os.path.isfile(f["file"]) and isinstance(f.get("line"), str):
            same(f["line"].strip(), linecache.getline(f["file"], f["lineno"]).strip(), f"line of frame {f['name']} of {what}")
    if "cause" in e:
        check_exc(dict(e["cause"], frames=e["cause"].get("frames") or [dict(name="", file="", lineno=0)]), "the cause of " + what)


def check_log(log, failed, what=""):
    """failed: figure ids in the order they failed"""
    for fid in dict.fromkeys(failed):
        es = [e for e in log if "exception" in e and ((e.get("extra") or {}).get("entity") or {}).get("fig_id") == fid]
        need(es, f"figure {fid} failed, but the log holds no exception for it{what}")
        for e in es:
            check_exc(e["exception"], f"figure {fid}{what}")


def run_runs(case):
    labels = set()
    with sut.Dir() as d:
        d = d.resolve()
        for k, (doc, skip) in enumerate(zip(case["docs"], case["skip"])):
            name = f"doc{k}.html"
            (d / name).write_text(render.html(doc), encoding="utf-8", newline="")
            command(["-o", f"out{k}"] + ["-s"] * skip + [name], d)
            need((d / "spex.log").is_file(), "no log was written")
            log = parse_log(sut.read(d / "spex.log"))
            failed = [x["fig"] for x in model.expect(doc).lint if x["code"] == "T1000"]
            if not skip:
                failed = failed[:1]
            check_log(log, failed, f" (run {k})")
            # another run's entries are gone
            for j in range(k):
                need(not any(f"doc{j}.html" in e["msg"] for e in log), f"the log of run {k} holds entries of run {j}")
            if failed:
                labels |= {"nontrivial", "skipping" if skip else "stopping"}
    return labels


def chain(exc):
    """what the log must say about an exception"""
    out = {"type": type(exc).__qualname__, "msg": str(exc), "frames": [[f.name, f.filename, f.lineno, f.line] for f in traceback.extract_tb(exc.__traceback__)]}
    if exc.__cause__ is not None:
        out["cause"] = chain(exc.__cause__)
    return out


def logged(e):
    out = {"type": e["type"], "msg": e["msg"], "frames": [[f["name"], f["file"], f["lineno"], f["line"]] for f in e["frames"]]}
    if "cause" in e:
        out["cause"] = logged(e["cause"])
    return out


def sink_class():
    """What writes the log file; None if it is not what it used to be (the runs of the command decide then)."""
    import inspect

    from spex.log import _log_config

    cls = getattr(_log_config, "LogFileSerializer", None)
    try:
        inspect.signature(cls).bind(0)
        return cls
    except (TypeError, ValueError):
        return None


class Sinks:
    """The command's log file sink, and one which keeps the records."""

    def __init__(self, path):
        self.path, self.seen = path, []

    def __enter__(self):
        from loguru import logger

        self.ids = [logger.add(self.keep, level="DEBUG", catch=False)]
        self.ids.append(logger.add(sink_class()(self.path), serialize=True, backtrace=True, diagnose=True, level="DEBUG"))
        return self

    def keep(self, message):
        r = message.record
        e = r["exception"]
        self.seen.append([r["level"].name, r["message"], r["function"], r["line"], chain(e.value) if e else None])

    def __exit__(self, *exc):
        import gc

        from loguru import logger

        for i in self.ids:
            logger.remove(i)
        gc.collect(0)


def compare(sinks):
    log = parse_log(sinks.path.read_bytes())
    with judging("log"):
        got = [[e["level"], e["msg"], e["func"], e["line"], logged(e["exception"]) if "exception" in e else None] for e in log]
    same(got, sinks.seen, "log entries")
    return log


def run_sink(case):
    if sink_class() is None:
        return {"no sink"}
    with sut.Dir() as d:
        src = d / "doc.html"
        src.write_text(render.html(case["doc"]), encoding="utf-8", newline="")
        with Sinks(d / "log") as s:
            sut.process(src, d, case["skip"])
        log = compare(s)
    failed = [x["fig"] for x in model.expect(case["doc"]).lint if x["code"] == "T1000"]
    if not case["skip"]:
        failed = failed[:1]
    check_log(log, failed)
    with judging("log"):
        for fid in failed:
            need(any(x[4] for x in s.seen), "no exception was logged")
    labels = {f"entries {min(len(log), 8)}"}
    if failed:
        labels.add("nontrivial")
    if any("_" in f for f in failed):
        labels.add("nested")
    return labels


EXC = [ValueError, RuntimeError, KeyError, AssertionError, IndexError, UnicodeError]


def throw(spec, depth):
    if depth:
        throw(spec, depth - 1)
        return
    kind, msg, d, cause, how = spec
    if cause is None:
        raise EXC[kind](msg)
    if how == 2:  # a cause which was never raised itself
        raise EXC[kind](msg) from EXC[cause[0]](cause[1])
    try:
        throw(cause, cause[2])
    except Exception as e:
        if how:
            raise EXC[kind](msg) from e
        raise EXC[kind](msg)  # only its context


def run_chains(case):
    if sink_class() is None:
        return {"no sink"}
    from spex.log import logger

    with sut.Dir() as d:
        with Sinks(d / "log") as s:
            for msg, extra, spec in case:
                try:
                    throw(spec, spec[2])
                except Exception:
                    logger.bind(**extra).exception(msg)
                logger.bind(**extra).log("U_ERROR", msg)
        log = compare(s)
        with judging("log"):
            same([e.get("extra") or {} for e in log], [x for _, x, _ in case for _ in (0, 1)], "extra values")
    return {"nontrivial"} if any(c[2][3] for c in case) else {"plain"}


o = strat.Opt(rows=(1, 4), nested=2, contiguous=False, rawkeys=True, dynamic=True, odd_hdr=True, xmax=1)
bulk = st.builds(lambda t, n: (t + " ") * (n // (len(t) + 1)), st.text(min_size=1, max_size=20), st.integers(300, 20000))
text = st.one_of(st.text(max_size=20), st.sampled_from(["a\nb", "{x} {} {0}", "<red>x</red>", "\\n", "\r\n", '"', "é🙂", "", "%s", "\x1b[31m", "{"]), strat.any_text)
msgs = st.one_of(text, text, text, text, text, bulk)
depths = st.sampled_from([0, 1, 2, 3, 3, 12, 45, 150])
leaf = st.tuples(st.integers(0, 5), msgs, depths, st.none(), st.just(0)).map(list)
specs = st.recursive(leaf, lambda s: st.tuples(st.integers(0, 5), msgs, depths, s, st.integers(0, 2)).map(list), max_leaves=4)
extras = st.dictionaries(st.sampled_from(["row", "range", "entity", "x"]), st.one_of(text, st.integers(), st.dictionaries(st.sampled_from(["fig_id", "title"]), text)), max_size=3)
docs = strat.mixed_document(o, lo=1, hi=4, kinds=("broken", "broken", "ok", "noid", "other"))


@st.composite
def runs(draw):
    n = draw(st.integers(1, 2))
    return {"docs": draw(st.lists(docs, min_size=n, max_size=n)), "skip": draw(st.lists(st.booleans(), min_size=n, max_size=n))}


SUBS = [
    Sub("sink", st.fixed_dictionaries({"doc": docs, "skip": st.sampled_from([True, True, False])}), run_sink, 1200),
    Sub("chains", st.lists(st.tuples(msgs, extras, specs).map(list), min_size=1, max_size=4), run_chains, 1200),
    Sub("runs", runs(), run_runs, 80),
]
