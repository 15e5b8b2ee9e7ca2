"""Drives the code under test through its public entry points."""
import json
import os
import shutil
import tempfile
from pathlib import Path

from vlib.core import Violation


class Outcome:
    """What processing one input led to."""

    def __init__(self, exc, model, raw, outdir, result):
        self.exc, self.model, self.raw, self.outdir, self.result = exc, model, raw, outdir, result

    def part(self, *keys):
        v = self.model
        for k in keys:
            v = v.get(k) if isinstance(v, dict) else None
        if not isinstance(v, list):
            raise Violation("no complete model was written")
        return v

    @property
    def entities(self):
        return self.part("entities")

    @property
    def lint(self):
        return self.part("meta", "lint")


def read(path):
    """An output file, which has to be there."""
    if not path.is_file():
        raise Violation(f"there is no output file {path.name}")
    return path.read_bytes()


class Dir:
    """A scratch directory that goes away."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=".", prefix="c")
        return Path(self.path)

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def drain(gen):
    out = []
    try:
        while True:
            out.append(next(gen))
    except StopIteration as e:
        return out, e.value


def process(path, outdir, skip=True, ignore=(), progress=False):
    """Run both stages on a file; never raises for failures of the code under test."""
    from spex.jsonspec.lint import Code
    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec

    exc, result, prog = None, None, []
    try:
        args = ParserArgs(
            output_dir=Path(outdir), skip_fig_on_error=skip, lint_codes_ignore=[Code[c] for c in ignore]
        )
        prog, result = drain(parse_spec(Path(path), args, yield_progress=progress))
    except Exception as e:
        exc = e
    jpath = Path(outdir) / (Path(path).name[: -len(Path(path).suffix)] + ".json")
    raw = jpath.read_bytes() if jpath.is_file() else None
    model = None
    if raw is not None:
        try:
            model = json.loads(raw.decode("utf-8"))
        except ValueError as e:
            if exc is None:
                raise Violation(f"output is not UTF-8 encoded JSON: {e}")
    o = Outcome(exc, model, raw, str(outdir), result)
    o.progress = prog
    return o


def html_to_model(html, skip=True, ignore=(), name="doc", progress=False):
    with Dir() as d:
        src = d / f"{name}.html"
        src.write_text(html, encoding="utf-8", newline="")
        out = d / "out"
        out.mkdir()
        return process(src, out, skip, ignore, progress)


def model_ok(html, skip=True, ignore=(), name="doc"):
    """As html_to_model, for inputs which must be processed without failing."""
    o = html_to_model(html, skip, ignore, name)
    if o.exc is not None:
        raise Violation(f"processing failed: {type(o.exc).__name__}: {str(o.exc)[:300]}")
    if o.model is None or not isinstance(o.model.get("entities"), list) or not isinstance(
        o.model.get("meta", {}).get("lint"), list
    ):
        raise Violation("no complete model was written")
    return o


def docx_process(blob, name="doc", skip=True, ignore=()):
    """Process docx bytes; returns (outcome, html text or None, css text or None, files)."""
    with Dir() as d:
        src = d / f"{name}.docx"
        src.write_bytes(blob)
        out = d / "out"
        out.mkdir()
        o = process(src, out, skip, ignore)
        h, c = out / f"{name}.html", out / f"{name}.css"
        html = h.read_bytes() if h.is_file() else None
        css = c.read_bytes() if c.is_file() else None
        files = sorted(os.listdir(out))
        return o, html, css, files


FRESH = """import os, sys
sys.path.insert(0, sys.argv[1])
from pathlib import Path
from spex.jsonspec.parserargs import ParserArgs
from spex.parse import parse_spec
for line in sys.stdin:
    src, out = line.rstrip("\\n").split("\\t")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            for _ in parse_spec(Path(src), ParserArgs(output_dir=Path(out), skip_fig_on_error=True)):
                pass
            code = 0
        finally:
            os._exit(code)
    print(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), flush=True)
"""


class Fresh:
    """Processes each input in a process which has not processed any other before."""

    proc = None

    @classmethod
    def process(cls, src, outdir):
        import subprocess
        import sys

        from vlib import boot

        if cls.proc is None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            cls.proc = subprocess.Popen([sys.executable, "-c", FRESH, boot.SRC], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, text=True, env=env)
        cls.proc.stdin.write(f"{Path(src).resolve()}\t{Path(outdir).resolve()}\n")
        cls.proc.stdin.flush()
        code = cls.proc.stdout.readline().strip()
        if code != "0":
            raise Violation(f"processing failed in a process of its own (status {code or 'none'})")
        return read(Path(outdir) / (Path(src).stem + ".json"))


def cli(argv, cwd=None):
    """Run the command's main function in this process; returns its exit status."""
    import contextlib
    import io
    import sys

    import spex.__main__ as m

    old_argv, old_cwd = sys.argv, os.getcwd()
    sys.argv = ["spex"] + [str(a) for a in argv]
    code = 0
    try:
        if cwd is not None:
            os.chdir(cwd)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            m.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception:
        code = 1  # an uncaught exception ends the interpreter with status 1
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)
    return code


def examples():
    from vlib import boot

    d = Path(boot.REPO) / "example" / "stage1"
    return sorted(d.glob("*.html"))
