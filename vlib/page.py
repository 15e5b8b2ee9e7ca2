"""The pages of the web service in a small browser (dom.js, run by node)."""
import atexit
import base64
import json
import os
import re
import subprocess

from vlib import boot, web
from vlib.core import Violation

_proc = [None, None]


def _ask(req):
    if _proc[0] is None or _proc[1] != os.getpid():
        _proc[:] = [subprocess.Popen(["node", os.path.join(boot.VERIF, "vlib", "dom.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True, encoding="utf-8"), os.getpid()]
        atexit.register(_proc[0].kill)
    p = _proc[0]
    try:
        p.stdin.write(json.dumps(req) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:
        # an answer may still be under way
        p.kill()
        _proc[0] = None
        raise
    if not line:
        _proc[0] = None
        raise RuntimeError("the browser died")
    out = json.loads(line)
    if "crash" in out:
        raise RuntimeError("the browser failed: " + out["crash"])
    return out


class Browser:
    def __init__(self):
        self.view = None

    def open(self, url, html, statics=None, files=None, stream=None):
        if stream is not None:
            stream = dict(stream, chunks=[base64.b64encode(c).decode() for c in stream["chunks"]])
        self._take(_ask({"html": html.decode("utf-8"), "url": "http://localhost" + url, "statics": statics or {}, "files": files or {}, "stream": stream}))
        return self.view

    def act(self, event, path):
        self._take(_ask({"act": event, "path": path}))
        return self.view

    def _take(self, out):
        self.views, self.errors, self.href, self.sent = out["views"], out["errors"], out["href"], out["sent"]
        self.view = self.views[-1] if self.views else None
        if self.errors:
            raise Violation(f"the page's script fails: {self.errors[0][:300]}")


async def load(s, url, **kw):
    """Open a page of the service."""
    g = await s.get(url)
    if g.status != 200 or not g.complete:
        raise Violation(f"page {url}: status is {g.status}")
    statics = {}
    for tag, attr, v in web.Page(g.content).links:
        if tag == "script" and not re.match(r"\w+:", v):
            r = await s.get(v)
            if r.status == 200:
                statics[v] = r.content.decode("utf-8")
    b = Browser()
    b.open(url, g.content, statics, **kw)
    return b


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def walk(t, path=(), hidden=False):
    """[(element, path to it, whether it is hidden)]"""
    if isinstance(t, list):
        hidden = hidden or t[2]
        yield t, list(path), hidden
        for i, c in enumerate(t[3]):
            yield from walk(c, (*path, i), hidden)


def seen(t, tag=None, test=None):
    """Visible elements."""
    return [(e, p) for e, p, h in walk(t) if not h and (tag is None or e[0] == tag) and (test is None or test(e))]


def texts(t, skip=None):
    """Visible texts, piece by piece."""
    if isinstance(t, str):
        return [norm(t)] if norm(t) else []
    if t[2] or skip and skip(t):
        return []
    return [x for c in t[3] for x in texts(c, skip)]


def classes(e):
    return set(e[1].get("class", "").split())
