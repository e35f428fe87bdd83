"""Shared harness: seeds, counters, verdicts, replay files, evidence, process pool."""
from __future__ import annotations
import collections, contextlib, hashlib, io, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys
import tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


def scale(quick: int, thorough: int) -> int:
    return thorough if THOROUGH else quick


def command(module, args, cwd=None, ascii_locale=False):
    """Runs a tool of /repo as a command of its own, maybe where the locale has ASCII only."""
    env = dict(os.environ)
    if ascii_locale:
        env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C", LANG="C")
    return subprocess.run([sys.executable, "-W", "ignore", "-m", module, *args], cwd=cwd, env=env, capture_output=True)


LOCALES = """cwlVersion: v1.2
class: CommandLineTool
label: "Stra\u00dfe \U0001f600 \u65e5\u672c"
doc: "\u00e9"
requirements: {InlineJavascriptRequirement: {expressionLib: ["var lib = '\u00f8\U0001f600';"]}}
inputs:
  x: {type: {type: enum, name: e, symbols: ["\u00e9", b]}, label: "\u00fc \U0001f600"}
  y: {type: string, default: "\u00e9\U0001f600", inputBinding: {prefix: "\u00e4", valueFrom: "$('\u00e9' + lib + self)"}}
baseCommand: [echo, "\u00f1"]
arguments: ["$('\u00f6\U0001f600' + inputs.y)"]
stdout: out.txt
outputs: {o: stdout}
"""


def any_locale(r, module, args, d):
    """A command writes the same in a locale that has ASCII only ('OUT' in args: where it writes to)."""
    os.makedirs(d)
    with open(d + "/doc.cwl", "w", encoding="utf-8") as h:
        h.write(LOCALES)
    got = {}
    for ascii_locale in (False, True):
        out = os.path.join(d, "out")
        os.makedirs(out)
        p = command(module, [a.replace("OUT", out) for a in args], d, ascii_locale)
        files = {f: open(os.path.join(out, f), "rb").read().decode("utf-8", "replace") for f in sorted(os.listdir(out))}
        files = {f: re.sub(r"_:[0-9a-f-]{36}", "_:", x) for f, x in files.items()}     # anonymous
        shutil.rmtree(out)
        got[ascii_locale] = (p.returncode, p.stdout.decode("utf-8", "replace"), files, p.stderr.decode("utf-8", "replace")[-800:])
    r.see("locales")
    r.case(["locale", module, args])
    if got[False][0] or not got[False][1] + "".join(got[False][2].values()):
        r.violation("locale-command-fails", args=args, got=got[False])
    elif got[False][:3] != got[True][:3]:
        r.violation("locale-matters", args=args, ascii=got[True], utf8=got[False])
    shutil.rmtree(d)


LINES = set()       # (file, line) of /repo's code that ran in this process
_SENT = set()


def _watch_lines():
    """Notes each line of /repo's code once (each location is switched off after its first event)."""
    m, root = sys.monitoring, REPO + "/src/"

    def line(code, n):
        if code.co_filename.startswith(root):
            LINES.add((code.co_filename[len(root):], n))
        return m.DISABLE

    try:
        m.use_tool_id(4, "verif")
        m.register_callback(4, m.events.LINE, line)
        m.set_events(4, m.events.LINE)
    except ValueError:
        pass


_watch_lines()


class CaseTimeout(BaseException):
    """A single case ran far beyond any normal duration."""


def jdump(x) -> str:
    return json.dumps(x, sort_keys=True, default=repr, ensure_ascii=False)


def digest(x) -> str:
    return hashlib.sha1(jdump(x).encode("utf-8", "surrogatepass")).hexdigest()


class Result:
    """What one case (or a chunk of cases) observed; picklable."""

    def __init__(self):
        self.obs = collections.Counter()
        self.keys = set()       # digests of distinct non-trivial cases
        self.evals = 0
        self.samples = []
        self.viol = []          # (mechanism key, detail)
        self.notes = []         # monitor problems -> inconclusive
        self.cov = set()
        self.lines = set()

    def see(self, name, n=1):
        self.obs[name] += n

    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.keys.add(digest(key))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def violation(self, key, **detail):
        if len(self.viol) < 20:
            self.viol.append((key, json.loads(jdump(detail))))
        self.obs["violations"] += 1

    def inconclusive(self, why):
        if len(self.notes) < 20:
            self.notes.append(str(why)[:2000])

    def merge(self, o):
        self.obs.update(o.obs)
        self.keys |= o.keys
        self.evals += o.evals
        self.cov |= o.cov
        self.lines |= o.lines
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.viol.extend(o.viol)
        self.notes.extend(o.notes)


def load_known(pid):
    """key -> text, for this property's 'known:' lines."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


@contextlib.contextmanager
def time_limit(seconds):
    def boom(*a):
        raise CaseTimeout(f"case still running after {seconds} s")
    old = signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_FN = None
_LIMIT = 120


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _call(item):
    r = Result()
    try:
        with time_limit(_LIMIT):
            _FN(item, r)
    except CaseTimeout:
        r.violation("hang", item=item, limit_s=_LIMIT, stack=traceback.format_exc()[-3000:])
    except BaseException as e:
        crashed(e, r, item)
    r.lines = LINES - _SENT
    _SENT.update(r.lines)
    return r


def crashed(e, r, item):
    """An unexpected exception: of the code under test (it left /repo's code) or of the harness."""
    inside = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + "/src/")]
    if inside:
        r.violation("crash-" + type(e).__name__, item=item, message=str(e)[:1500], raised_through=[
            "%s:%s" % (os.path.relpath(f.filename, REPO), f.name) for f in inside][-8:], stack=traceback.format_exc()[-3000:])
    else:
        r.inconclusive("harness exception on %r: %s" % (item, traceback.format_exc()))


def pool_run(fn, items, procs=8, limit=120, chunk=1, check=None):
    """Run fn(item, result) for all items in forked workers; merge all results.

    limit: seconds after which one item counts as hanging (normal items take well under a second).
    """
    global _FN, _LIMIT
    _FN, _LIMIT = fn, limit
    items = list(items)
    total = Result()
    if procs <= 1 or os.environ.get("VERIF_NOPOOL"):
        for it in items:
            total.merge(_call(it))
        return total
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, max(1, len(items))), initializer=_worker_init) as pool:
        it = pool.imap_unordered(_call, items, chunksize=chunk)
        for _ in items:
            try:
                total.merge(it.next(timeout=limit * 2 + 60))
            except multiprocessing.TimeoutError:
                total.inconclusive("a worker died or stopped answering")
                pool.terminate()
                break
    return total


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.total = Result()
        self.mins = []
        self.extra = {}
        self.known = load_known(pid)
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self._mainpid = os.getpid()

    def rng(self, *salt):
        return random.Random("%s|%s|%s" % (self.pid, SEED, "|".join(map(str, salt))))

    def add(self, r):
        self.total.merge(r)

    def need(self, name, minimum):
        self.mins.append((name, minimum))

    def finish(self):
        t = self.total
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w", errors="backslashreplace") as f:
                json.dump(t.viol, f, indent=1, default=repr)
        known_hits = collections.OrderedDict()
        fresh = []
        for key, detail in t.viol:
            if key in self.known:
                known_hits.setdefault(key, detail)
            else:
                fresh.append((key, detail))
        rdir = os.path.join(VERIF, "replays", self.pid)
        lines = []
        if fresh:
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for key, detail in fresh:
                if key in seen or len(seen) >= 5:
                    continue
                seen.add(key)
                path = os.path.join(rdir, "%s_%s.json" % (re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80], SEED))
                with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
                    json.dump({"property": self.pid, "key": key, "seed": SEED, "tier": TIER,
                               "detail": detail}, f, indent=1, ensure_ascii=False, default=repr)
                lines.append("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, VERIF)))
                print("--- %s: %s" % (key, jdump(detail)[:1500].encode("utf-8", "backslashreplace").decode()))
        for key in known_hits:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.known[key], key))
        for n in t.notes[:5]:
            print("INCONCLUSIVE: " + n)
        short = [(n, m, t.obs.get(n, 0)) for n, m in self.mins if t.obs.get(n, 0) < m]
        for n, m, got in short:
            print("INCONCLUSIVE: monitor saw only %d of at least %d '%s'" % (got, m, n))
        cov = {"evaluations": t.evals, "distinct_nontrivial": len(t.keys), "rule": self.rule,
               "samples": t.samples[:4] or ["none"], "observed": dict(sorted(t.obs.items()))}
        cov["lines_of_repo_executed"] = dict(collections.Counter(f for f, n in t.lines | LINES))
        if os.environ.get("VERIF_LINES"):
            with open(os.environ["VERIF_LINES"], "w") as h:
                json.dump(sorted(t.lines | LINES), h)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh), "known_findings_seen": list(known_hits)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w", encoding="utf-8",
                  errors="backslashreplace") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d observed=%s wall=%.1fs" % (
            self.pid, TIER, SEED, t.evals, len(t.keys), dict(sorted(t.obs.items())), time.time() - self.t0))
        if lines:
            for l in lines:
                print(l)
            return 1
        if t.notes or short:
            return 2
        print("HELD property=%s" % self.pid)
        return 0


def main(check, body):
    """Run body(check) and finish. An exception of the harness itself is 'inconclusive' (exit 2)."""
    try:
        body(check)
    except Exception as e:
        crashed(e, check.total, "main")
    rc = check.finish()
    sys.stdout.flush()
    os._exit(rc)


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr/logging of the code under test (returns the captured text)."""
    import logging
    out, err = io.StringIO(), io.StringIO()
    old = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        logging.disable(old)
