"""A client for the web service: speaks ASGI to the application, request by request,
with the order in which the requests proceed chosen by the test case."""
import asyncio
import gc
import json
import os
import re
import shutil
import tempfile
from html.parser import HTMLParser
from urllib.parse import quote, unquote, urlsplit

from vlib import sut
from vlib.core import Violation

STEPS = 20000


def delimits(body, i):
    """Whether a cut at i is next to or inside of a multipart delimiter. The library which
    parses them (not part of the code under test) takes a CR ending a piece for content."""
    return body[i - 1 : i] == b"\r" or body.rfind(b"\r\n--", max(0, i - 40), i + 4) >= 0


class Request:
    """One exchange. Pauses before each message in either direction."""

    def __init__(self, method, target, headers=(), body=b"", chunk=1 << 20, abort=None):
        u = urlsplit(target)
        self.scope = {
            "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http",
            "path": unquote(u.path), "raw_path": u.path.encode(), "query_string": u.query.encode(), "root_path": "",
            "headers": [(b"host", b"localhost")] + [(k.lower().encode(), v.encode("utf-8", "surrogateescape")) for k, v in headers],
            "client": ("127.0.0.1", 4711), "server": ("localhost", 5050), "extensions": {},
        }
        if body or method == "POST":
            self.scope["headers"].append((b"content-length", str(len(body)).encode()))
        cuts = [0] + [i for i in range(chunk, len(body), chunk) if not delimits(body, i)] + [len(body)]
        self.parts = [body[i:j] for i, j in zip(cuts, cuts[1:])]
        self.abort = abort  # number of messages after which the client goes away
        self.n = 0
        self.status = None
        self.headers = {}
        self.chunks = []
        self.complete = False  # the response came to its proper end
        self.exc = None
        self.gate = None
        self.ended = False

    @property
    def content(self):
        return b"".join(self.chunks)

    # -- server side interface
    async def _pause(self):
        loop = asyncio.get_running_loop()
        fut = loop.create_future()
        self.gates.append(fut)
        self.moved.set()
        await fut

    async def receive(self):
        if self.parts and not self.gone:
            await self._pause()
            if not self.gone:
                body = self.parts.pop(0)
                return {"type": "http.request", "body": body, "more_body": bool(self.parts)}
        await self.left.wait()
        return {"type": "http.disconnect"}

    async def send(self, msg):
        await self._pause()
        if self.gone:
            return
        if msg["type"] == "http.response.start":
            self.status = msg["status"]
            self.headers = {k.decode("latin1").lower(): v.decode("latin1") for k, v in msg["headers"]}
        elif msg["type"] == "http.response.body":
            if msg.get("body"):
                self.chunks.append(bytes(msg["body"]))
            if not msg.get("more_body"):
                self.complete = True

    async def _serve(self, app):
        try:
            await app(self.scope, self.receive, self.send)
        except Exception as e:  # the server would drop the connection
            self.exc = e.with_traceback(None)
            self.exc.__context__ = self.exc.__cause__ = None
        self.ended = True
        self.moved.set()

    # -- driver's interface
    def start(self, app):
        self.gates, self.gone = [], False
        self.moved, self.left = asyncio.Event(), asyncio.Event()
        self.task = asyncio.ensure_future(self._serve(app))

    def waiting(self):
        self.gates = [g for g in self.gates if not g.done()]
        return bool(self.gates)

    async def settle(self):
        """Until the request waits for its next turn or has ended."""
        while not self.ended and not self.waiting():
            self.moved.clear()
            await asyncio.wait_for(self.moved.wait(), 120)

    async def step(self):
        await self.settle()
        if self.ended:
            return
        if self.abort is not None and self.n >= self.abort and not self.gone:
            self.gone = True
            self.left.set()
        self.n += 1
        self.gates.pop(0).set_result(None)
        if self.gone:
            # the server is to notice by itself: nothing is exchanged any more
            while self.waiting():
                self.gates.pop(0).set_result(None)
        await asyncio.sleep(0)
        await self.settle()


class Service:
    """The web service with a temporary directory of its own, inside a scratch directory."""

    def __init__(self, root):
        self.root = root
        self.tmp = os.path.join(root, "q", "r", "s", "t", "tmp")
        os.makedirs(self.tmp)
        os.makedirs(os.path.join(root, "home"))

    async def __aenter__(self):
        import logging

        self.old = tempfile.tempdir, os.environ.get("HOME"), os.environ.get("TMPDIR"), os.getcwd()
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp
        os.environ["HOME"] = os.path.join(self.root, "home")
        from spexsrv.application.app import app

        logging.disable(logging.CRITICAL)
        self.app = app
        await app.startup()
        return self

    async def __aexit__(self, *exc):
        try:
            await self.app.shutdown()
        finally:
            tempfile.tempdir = self.old[0]
            for k, v in (("HOME", self.old[1]), ("TMPDIR", self.old[2])):
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            os.chdir(self.old[3])

    async def run(self, requests, turns=(), started=None, ended=None, tick=None):
        """Start the requests in order, interleaving them as `turns` says: 0 starts
        the next one, others let a request under way proceed by one message."""
        waiting, live, turns = list(requests), [], list(turns)
        for _ in range(STEPS):
            k = turns.pop(0) if turns else None
            if k is None:
                k = 1 if live else 0
            if waiting and (k == 0 or not live):
                r = waiting.pop(0)
                if started:
                    started(r)
                r.start(self.app)
                live.append(r)
                await r.settle()
            elif live:
                r = live[(k - 1) % len(live)]
                await r.step()
            else:
                break
            if tick:
                tick()
            if r.ended:
                live.remove(r)
                if r.abort is not None:
                    await idle()
                if ended:
                    ended(r)
        else:
            raise Violation("a response does not come to an end")

    async def get(self, target):
        r = Request("GET", target)
        await self.run([r])
        return r


async def idle():
    """Let what a cancelled request left behind finish."""
    for _ in range(3):
        gc.collect()
        for _ in range(10):
            await asyncio.sleep(0)


def serve(fn):
    """Run fn(service) on a fresh service."""
    with sut.Dir() as d:
        async def go():
            async with Service(os.path.abspath(d)) as s:
                return await fn(s)
        gc.freeze()  # collecting garbage is to look at what the case leaves only
        try:
            return asyncio.run(go())
        finally:
            gc.collect()
            gc.unfreeze()


def upload(name, blob, accept="text/event-stream", field="document", enc=0, chunk=1 << 20, abort=None, mime="text/html", extra=(), path="/parse"):
    b = b"----spexv7MA4YWxkTrZu0gW"
    if name is None:
        disp = f'form-data; name="{field}"'.encode()
    elif enc == 1:
        disp = f"form-data; name=\"{field}\"; filename*=UTF-8''{quote(name.encode('utf-8', 'surrogateescape'), safe='')}".encode()
    elif enc == 2:
        disp = f'form-data; name="{field}"; filename="'.encode() + name.replace("\\", "\\\\").replace('"', '\\"').encode("utf-8", "surrogateescape") + b'"'
    else:
        disp = f'form-data; name="{field}"; filename="'.encode() + name.replace('"', "%22").encode("utf-8", "surrogateescape") + b'"'
    body = b""
    for k, v in extra:
        body += b"--" + b + b'\r\nContent-Disposition: form-data; name="' + k.encode() + b'"\r\n\r\n' + v.encode() + b"\r\n"
    body += b"--" + b + b"\r\nContent-Disposition: " + disp + b"\r\n"
    if name is not None:
        body += b"Content-Type: " + mime.encode() + b"\r\n"
    body += b"\r\n" + blob + b"\r\n--" + b + b"--\r\n"
    hdrs = [("content-type", "multipart/form-data; boundary=" + b.decode())]
    if accept is not None:
        hdrs.append(("accept", accept))
    return Request("POST", path, hdrs, body, chunk, abort)


def events(r):
    """The events of a stream, in order."""
    text = r.content.decode("utf-8")
    if not text:
        return []
    if not text.endswith("\n\n"):
        raise Violation("the event stream ends in the middle of an event")
    out = []
    for block in re.split(r"\n\n", text)[:-1]:
        data = [ln[5:].lstrip(" ") for ln in block.split("\n") if ln.startswith("data:")]
        if not data or any(ln and not re.match(r"(data|event|id|retry)?:", ln) for ln in block.split("\n")):
            raise Violation(f"malformed event {block!r}")
        out.append(json.loads("\n".join(data)))
    return out


def completion(r):
    """URL of the report, or None"""
    done = [e for e in events(r) if e.get("type") == "report-completed"]
    return done[0]["url"] if done else None


class Page(HTMLParser):
    """Tags, links and scripts of a page."""

    def __init__(self, data):
        super().__init__(convert_charrefs=True)
        self.tags, self.scripts, self.links, self._in = [], [], [], None
        self.feed(data.decode("utf-8"))
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append([tag, sorted(k for k, _ in attrs)])
        for k, v in attrs:
            if k in ("href", "src"):
                self.links.append([tag, k, v])
        self._in = tag
        if tag == "script":
            self.scripts.append("")

    def handle_endtag(self, tag):
        self.tags.append(["/" + tag])
        self._in = None

    def handle_data(self, data):
        if self._in == "script":
            self.scripts[-1] += data

    def values(self):
        """[(JSON text, value)] of the constants the scripts define"""
        out = []
        dec = json.JSONDecoder()
        for s in self.scripts:
            for m in re.finditer(r"(?:const|let|var)\s+\w+\s*=\s*(?=[\[{])|JSON\.parse\(", s):
                try:
                    v, end = dec.raw_decode(s, m.end())
                except ValueError:
                    continue
                out.append((s[m.end() : end], v))
        return out


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)
