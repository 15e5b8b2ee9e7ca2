"""Runner: drives each property's generated cases and reports the outcome.

A check module (vlib/props/cXX.py) provides SUBS, a list of Sub. Each Sub has a
Hypothesis strategy producing plain JSON-able cases and a function judging one
case against the real code. The function returns a list of class labels, the
case being non-trivial iff 'nontrivial' is among them, or raises Violation.
Any other exception is an error of the harness (exit 2), never a violation.
"""
import argparse
import contextlib
import hashlib
import importlib
import json
import os
import re
import resource
import shutil
import signal
import sys
import time
import traceback

from vlib import boot

WORKERS = 8
QUICK_SCALE = 2  # the quick tier runs this many times the cases each generator is given
CASE_CPU_S = 60  # CPU time for a single case; ordinary cases take milliseconds
SHRINK_S = 40  # wall time spent on shrinking after the first failure
BUDGET_S = {"quick": 420, "thorough": 3 * 3600}
MEM_BYTES = 6 << 30


class Violation(Exception):
    """The code under test broke the property on the current case."""


class CpuTimeout(BaseException):
    pass


@contextlib.contextmanager
def judging(what="output"):
    """Looking at the code's output: stumbling over its shape is its fault."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"malformed {what}: {type(e).__name__}: {e} (at {os.path.basename(tb.filename)}:{tb.lineno})") from e


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def first_diff(a, b, path=""):
    if type(a) is type(b):
        if isinstance(a, (list, tuple)):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return first_diff(x, y, f"{path}[{i}]")
            if len(a) != len(b):
                i = min(len(a), len(b))
                return f"{path}[{i}]", a[i] if i < len(a) else "nothing", b[i] if i < len(b) else "nothing"
        if isinstance(a, dict):
            for k in sorted(set(a) | set(b), key=str):
                if a.get(k) != b.get(k) or (k in a) != (k in b):
                    return first_diff(a.get(k), b.get(k), f"{path}.{k}")
    return path, a, b


def same(got, want, what):
    if got != want:
        path, g, w = first_diff(got, want)
        if path:
            raise Violation(f"{what}: at {path}: got {short(g)}, expected {short(w)}")
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(v, n=600):
    s = json.dumps(v, ensure_ascii=False, default=repr, sort_keys=True)
    return s if len(s) <= n else s[: n - 30] + f"...({len(s)} chars)"


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, workers=WORKERS, enum=None):
        """quick/thorough: number of cases over all workers. enum: function
        (tier) -> list of fixed cases run in addition to the generated ones."""
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough or quick * 12}
        self.workers = workers
        self.enum = enum


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).hexdigest()[:16]


class State:
    """Result of one worker."""

    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.fail = None  # (size, case, msg, sub)
        self.first_fail = None
        self.error = None
        self.truncated = False
        self.known = {}
        self.subs = {}

    def to_json(self):
        d = dict(self.__dict__)
        d["nontrivial"] = sorted(self.nontrivial)
        return d


class StopWorker(BaseException):
    pass


def _alarm(signum, frame):
    raise CpuTimeout()


def run_case(pid, sub, case, st, findings):
    """Judge one case; returns None or the violation's message."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        labels = sub.run(case)
    except Violation as v:
        msg = str(v)
        for f in findings:
            if f["match"](sub.name, case, msg):
                st.known[f["id"]] = st.known.get(f["id"], 0) + 1
                return None
        return msg
    except CpuTimeout:
        return f"processing the case did not end within {CASE_CPU_S} s of CPU time"
    except MemoryError:
        return f"processing the case needed more than {MEM_BYTES >> 30} GB of memory"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    st.evals += 1
    st.subs[sub.name] = st.subs.get(sub.name, 0) + 1
    h = case_hash(case)
    for lb in set(labels):
        k = sub.name + "/" + lb
        st.classes[k] = st.classes.get(k, 0) + 1
    if "nontrivial" in labels and h not in st.nontrivial:
        st.nontrivial.add(h)
        if len(st.samples) < 2 or (len(st.nontrivial) % 97 == 0 and len(st.samples) < 4):
            st.samples.append({"sub": sub.name, "case": case})
    return None


def worker(pid, mod, subs, wid, seed, tier, scale, deadline, st):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    signal.signal(signal.SIGPROF, _alarm)
    findings = known_findings(pid)

    for si, sub in enumerate(subs):
        fixed = sub.enum(tier) if sub.enum else []
        for i, case in enumerate(fixed):
            if i % WORKERS != wid:
                continue
            msg = run_case(pid, sub, case, st, findings)
            if msg is not None:
                st.fail = (len(json.dumps(case)), case, msg, sub.name)
                return
        if sub.strategy is None or wid >= sub.workers:
            continue
        n = max(1, int(sub.n[tier] * scale) // sub.workers)

        def body(case):
            now = time.monotonic()
            if st.first_fail is not None and now - st.first_fail > SHRINK_S:
                raise StopWorker()
            if st.first_fail is None and now > deadline:
                st.truncated = True
                raise StopWorker()
            try:
                msg = run_case(pid, sub, case, st, findings)
            except Exception:
                st.error = traceback.format_exc() + "\ncase: " + short({"sub": sub.name, "case": case}, 4000)
                raise StopWorker()
            if msg is not None:
                size = len(json.dumps(case))
                if st.fail is None or size <= st.fail[0]:
                    st.fail = (size, case, msg, sub.name)
                if st.first_fail is None:
                    st.first_fail = time.monotonic()
                raise Violation(msg)

        test = hypothesis.seed(derive(seed, pid, sub.name, wid))(
            settings(
                max_examples=n,
                deadline=None,
                database=None,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )(given(sub.strategy)(body))
        )
        try:
            test()
        except Violation:
            return
        except StopWorker:
            return
        except hypothesis.errors.Flaky:
            if st.fail is not None:
                st.fail = (st.fail[0], st.fail[1], st.fail[2] + " [not reproduced on every run]", st.fail[3])
                return
            raise


def known_findings(pid):
    """Entries of KNOWN_FINDINGS.txt for this property: a case which fails, and how."""
    out = []
    with open(os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as fh:
        for line in fh:
            head = f"known: property={pid} "
            if line.startswith(head):
                f = json.loads(line[len(head):])
                f["match"] = lambda sub, case, msg, f=f: sub == f["sub"] and case == f["case"] and re.search(f["message"], msg) is not None
                out.append(f)
    return out


def load_module(pid):
    mod = importlib.import_module("vlib.props." + pid.lower())
    return mod


def corpus_cases(pid):
    d = os.path.join(boot.VERIF, "corpus", pid)
    if not os.path.isdir(d):
        return
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".json"):
            with open(os.path.join(d, fn)) as fh:
                yield fn, json.load(fh)


def write_replay(pid, sub, case, msg):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{sub}-{case_hash(case)}.json")
    with open(path, "w") as fh:
        json.dump({"property": pid, "sub": sub, "case": case, "message": msg}, fh, indent=1, ensure_ascii=False)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--workers", type=int, default=WORKERS)
    a = ap.parse_args(argv)
    if a.scale is None:
        a.scale = QUICK_SCALE if a.tier == "quick" else 1.0
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = derive(os.environ["VERIF_SEED"])
    pid = a.property
    t0 = time.monotonic()

    sys.stdout.reconfigure(line_buffering=True)
    try:
        boot.quiet_spex()
        mod = load_module(pid)
    except (ImportError, AttributeError, SyntaxError, AssertionError):
        traceback.print_exc()
        return 2
    subs = [s for s in mod.SUBS if a.sub in (None, s.name)]

    if a.replay:
        signal.signal(signal.SIGPROF, _alarm)
        with open(os.path.join(boot.CWD, a.replay)) as fh:
            r = json.load(fh)
        sys.stderr = open(os.devnull, "w")
        sub = next(s for s in mod.SUBS if s.name == r["sub"])
        try:
            msg = run_case(pid, sub, r["case"], State(), [])
        except Exception:
            traceback.print_exc(file=boot.REAL_STDERR)
            return 2
        if msg is None:
            print("replay: held")
            return 0
        print(msg)
        print(f"VIOLATION property={pid} replay={a.replay}")
        return 1

    results = []
    # Known findings and saved regressions first, in a process of their own.
    jobs = [("corpus", None)] + [("gen", w) for w in range(a.workers)]
    deadline = t0 + BUDGET_S[a.tier]
    pids = {}
    for kind, w in jobs:
        out = os.path.join(boot.SCRATCH, f"result-{kind}-{w}.json")
        child = os.fork()
        if child == 0:
            code = 0
            try:
                child_main(pid, mod, subs, kind, w, seed, a, deadline, out)
            except BaseException:
                traceback.print_exc(file=boot.REAL_STDERR)
                code = 3
            finally:
                boot.REAL_STDERR.flush()
                os._exit(code)
        pids[child] = (kind, w, out)
    hard = deadline + 240
    while pids:
        c, status = os.waitpid(-1, os.WNOHANG)
        if c == 0:
            if time.monotonic() > hard:
                for k in pids:
                    os.kill(k, signal.SIGKILL)
            time.sleep(0.02)
            continue
        if c not in pids:
            continue
        kind, w, out = pids.pop(c)
        if os.path.exists(out):
            with open(out) as fh:
                results.append((kind, w, json.load(fh)))
        else:
            results.append((kind, w, {"error": f"worker {kind}/{w} ended with status {status} and no result"}))
    results.sort(key=lambda r: (r[0], r[1] or 0))
    return report(pid, mod, a, seed, results, t0)


def child_main(pid, mod, subs, kind, w, seed, a, deadline, out):
    d = os.path.join(boot.SCRATCH, f"w-{kind}-{w}")
    os.makedirs(os.path.join(d, "tmp"))
    os.chdir(d)
    import tempfile

    tempfile.tempdir = os.path.join(d, "tmp")
    os.environ["TMPDIR"] = tempfile.tempdir
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    sys.stderr = open(os.devnull, "w")
    sys.stdout = open(os.devnull, "w")
    st = State()
    try:
        if kind == "corpus":
            signal.signal(signal.SIGPROF, _alarm)
            by = {s.name: s for s in mod.SUBS}
            for fn, r in corpus_cases(pid):
                if r["sub"] not in by:
                    st.error = f"corpus file {fn}: no sub {r['sub']}"
                    break
                msg = run_case(pid, by[r["sub"]], r["case"], st, known_findings(pid))
                if msg is not None:
                    st.fail = (0, r["case"], msg, r["sub"])
                    break
            for f in known_findings(pid):
                # the listed input: say whether it still fails
                by_sub = by[f["sub"]]
                run_case(pid, by_sub, f["case"], st, [f])
        else:
            worker(pid, mod, subs, w, seed, a.tier, a.scale, deadline, st)
    except BaseException:
        st.error = traceback.format_exc()
    with open(out + ".tmp", "w") as fh:
        json.dump(st.to_json(), fh)
    os.rename(out + ".tmp", out)
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


def report(pid, mod, a, seed, results, t0):
    errors = [r["error"] for _, _, r in results if r.get("error")]
    fails = [(r["fail"][0], k, r["fail"]) for k, _, r in results if r.get("fail")]
    evals = sum(r.get("evals", 0) for _, _, r in results)
    nontrivial = set()
    classes, subs, known = {}, {}, {}
    samples = []
    for _, _, r in results:
        nontrivial.update(r.get("nontrivial", []))
        for dst, src in ((classes, r.get("classes", {})), (subs, r.get("subs", {})), (known, r.get("known", {}))):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples += r.get("samples", [])
    truncated = any(r.get("truncated") for _, _, r in results)
    seen, picked = set(), []
    for s in sorted(samples, key=lambda s: len(json.dumps(s))):
        if s["sub"] not in seen or len(picked) < 4:
            seen.add(s["sub"])
            picked.append(s)
    picked = [s if len(json.dumps(s)) < 20000 else {"sub": s["sub"], "case": short(s["case"], 4000)} for s in picked[:8]]

    for f in known_findings(pid):
        if known.get(f["id"]):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    replay = None
    if fails:
        fails.sort(key=lambda f: f[0])
        _, kind, (_, case, msg, sub) = fails[0]
        replay = write_replay(pid, sub, case, msg)
        print(f"{pid}/{sub}: {msg}")
        print(f"VIOLATION property={pid} replay={replay}")
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": picked or [{"note": "no case completed"}],
            "cases_per_generator": subs,
            "classes": dict(sorted(classes.items())),
            "budget_hit": truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
    }
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    for e in list(dict.fromkeys(errors))[:3]:
        print(f"harness error in {pid}:\n{e}", file=boot.REAL_STDERR)
    print(f"{pid}: {evals} cases, {len(nontrivial)} distinct non-trivial, {len(fails)} failing, "
          f"{ev['wall_s']} s" + (", budget hit" if truncated else ""))
    if fails:
        return 1
    return 2 if errors else 0
