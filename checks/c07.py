"""C07 JavaScript evaluation: values, histories with faults, concurrent threads, slow and splitting pipes."""
import json, os, signal, stat, subprocess, sys, threading, time
import common
from common import scale
from cwl_utils.errors import JavascriptException, WorkflowException
from cwl_utils.expression import do_eval
from cwl_utils import sandboxjs

C = common.Check("C07", "a history of JavaScript evaluations in one process (values of every JSON kind and of sizes around pipe "
                 "and buffer boundaries, mixed with syntax errors, exceptions, time-outs, killed engines and interrupts), in "
                 "one thread or several at once, with the real engine or one whose output arrives in small delayed pieces; "
                 "every result is compared with the value the expression was built from; non-trivial = a value or an error "
                 "was observed; distinct by expression and history position")
SENTINEL = "r1cepzbhUTxtykz5XTC4"
REQ = "InlineJavascriptRequirement"
SHIM = '''#!%s -I
import ctypes, os, random, signal, subprocess, sys, threading, time
ctypes.CDLL(None).prctl(1, 9)
def pre(): ctypes.CDLL(None).prctl(1, 9)
if "-v" in sys.argv or "process.stdout.write('t')" in sys.argv:
    os.execv(%r, [%r] + sys.argv[1:])
rng = random.Random(%d)
p = subprocess.Popen([%r] + sys.argv[1:], stdin=0, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
def pump(src, fd, rng):
    size = rng.choice([1, 2, 3, 7, 100, 4095, 4096, 4097])
    n = 0
    while True:
        b = os.read(src.fileno(), size if n < 3000 else 8191)
        if not b: break
        n += 1
        if rng.random() < 0.02: time.sleep(0.002)
        os.write(fd, b)
        if rng.random() < 0.1: size = rng.choice([1, 2, 3, 7, 100, 1000, 4095, 4096, 4097])
    os.close(fd)
t = [threading.Thread(target=pump, args=(p.stdout, 1, random.Random(rng.random()))),
     threading.Thread(target=pump, args=(p.stderr, 2, random.Random(rng.random())))]
for x in t: x.start()
for x in t: x.join()
p.wait()
'''


def shim(seed):
    """A directory with a 'nodejs' whose output comes in small pieces."""
    d = os.path.join(C.scratch, "shim%s" % seed)
    os.makedirs(d, exist_ok=True)
    node = subprocess.check_output(["bash", "-c", "type -P nodejs || type -P node"], text=True).strip()
    for n in ("nodejs", "node"):
        with open(os.path.join(d, n), "w") as f:
            f.write(SHIM % (sys.executable, node, node, int(seed) + 1, node))
        os.chmod(os.path.join(d, n), 0o755)
    return d


# ---- values -----------------------------------------------------------------------------------
CHARS = ["a", "é", "日", "𝄞", "\n", "\t", '"', "'", "\\", "\u2028", "\x00", "\x7f", "$", "(", "{", "\ufeff", "\U0010ffff", "\ud800", "~"]


def text(rng, n):
    base = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 3, 7])))
    return (base * (n // len(base) + 1))[:n]


def value(rng, depth=0):
    k = rng.random()
    if depth < 4 and k < 0.2:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 5]))]
    if depth < 4 and k < 0.4:
        return {text(rng, rng.choice([0, 1, 5])): value(rng, depth + 1) for _ in range(rng.choice([0, 1, 3]))}
    if k < 0.7:
        return text(rng, rng.choice([0, 1, 2, 10, 60]))
    return rng.choice([None, True, False, 0, 1, -1, 3, 2 ** 31, -2 ** 53, 1.5, -0.25, 1e300, 1e-7, 123456789.125,
                       SENTINEL, SENTINEL + "\n", "\n" + SENTINEL + "\n", rng.randint(-9 ** 9, 9 ** 9)])


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def js(v):
    """A JavaScript expression for v ('__proto__' keys never appear)."""
    return json.dumps(v)


def good(rng, big):
    """(expression, inputs, lib, expected value, kind)"""
    k = rng.randrange(10)
    v = value(rng)
    if k == 0:
        return "$(%s)" % paren_safe(rng, v), {}, [], v, "literal"
    if k == 1:
        return "${return JSON.parse(inputs.s);}", {"s": json.dumps(v)}, [], v, "parse"
    if k == 2:
        return rng.choice(["${return inputs.v;}", "$(inputs['v'] )", "${var x = {k: [inputs.v]}; return x.k[0];}",
                           "${ return (function(){ return inputs.v })(); }"]), {"v": v}, [], v, "inputs"
    if k == 3:
        return "$(lib1(inputs.v))", {"v": v}, ["function lib1(x){ return [x, lib2(x)]; }", "function lib2(x) { return {r: x}; }"], \
            [v, {"r": v}], "lib"
    if k == 4:
        n = rng.choice([0, 1, 100, 1000])
        return "${var a = []; for (var i = 0; i < %d; i++) { a.push(i * 2); } return a;}" % n, {}, [], [i * 2 for i in range(n)], "loop"
    if k == 5:
        a, b = rng.randint(-1000, 1000), rng.randint(1, 1000)
        return "$(%d + inputs.b * 2)" % a, {"b": b}, [], a + 2 * b, "arithmetic"
    if k == 6:
        d = rng.choice([1, 10, 200])
        e = v
        for _ in range(d):
            e = [e]
        return "${var x = inputs.v; for (var i = 0; i < %d; i++) { x = [x]; } return x;}" % d, {"v": v}, [], e, "nested"
    if k == 7:
        return "${ %s return inputs.v; }" % rng.choice(
            ["Promise.resolve(1);", "Promise.resolve(1).then(function(){});", "Promise.reject(new Error('late'));",
             "(function(){ try { throw new Error('x'); } catch (e) {} })();", "var s = '}'; ", "Array.prototype.x1 = 1; delete Array.prototype.x1;",
             "new Promise(function(a, b){ b('no'); });", "globalThis.leak = 5;"]), {"v": v}, [], v, "side effects"
    # strings whose encoded size lies around buffer boundaries
    c = rng.choice(["x", "é", "日", "𝄞", '"', "ab日"])
    size = rng.choice([4094, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537] + ([300000, 1100000] if big else []))
    n = max(0, size // max(1, len(json.dumps(c, ensure_ascii=False).encode()) - 2) + rng.choice([-3, -2, -1, 0, 1, 2]))
    if rng.random() < 0.5:
        return "${var s = ''; for (var i = 0; i < %d; i++) { s += inputs.c; } return s;}" % n, {"c": c}, [], c * n, "sized"
    return "${return inputs.s;}", {"s": c * n}, [], c * n, "sized inputs"


def paren_safe(rng, v):
    return js(v)


BAD = ["$(1 +)", "${return }}", "${var 1a;}", "$(nosuchname)", "${throw new Error('boom');}", "${throw 'x';}", "${throw null;}",
       "${throw undefined;}", "${throw {a: 1};}", "${throw '%s';}" % SENTINEL, "${throw '%s\\n';}" % SENTINEL,
       "${return undefined;}", "${}", "${return function(){};}", "${return 10n;}", "${var a = []; a.push(a); return a;}",
       "${null.x;}", "${return inputs.v.w.x.y;}", "${(function f(){ return f(); })();}", "${return Symbol('x');}",
       "${return {get a(){ throw new Error('in getter'); }};}", "${return {toJSON: function(){ throw 1; }};}",
       "${throw new Error('é日'.repeat(30000));}", "${throw new SyntaxError('fake');}", "${ return new Proxy({}, {ownKeys: function(){ throw 1; }}); }",
       "${ 'use strict'; undeclared = 5; return 1; }", "$(JSON.parse('{'))", "${ return [1,2", "$(\"unterminated)"]
ASYNC = ["${ Promise.resolve().then(function(){ while (true) {} }); return 1; }"]
RUNAWAY = ["${while (true) {}}", "$((function(){ for(;;); })())", "${ return {toJSON: function(){ while (true) {} }}; }",
           "${ throw {get stack(){ while (true) {} }, toString: function(){ while (true) {} }}; while (true) {} }",
           "${ var a = 0; while (a < 1e15) { a += Math.sqrt(2); } return a; }"] + ASYNC


def ev(expr, inputs, lib, timeout=60, **kw):
    req = {"class": REQ}
    if lib:
        req["expressionLib"] = lib
    return do_eval(expr, inputs, [req], "/out", "/tmp", {}, timeout=timeout, cwlVersion="v1.2", **kw)


def children():
    """Pids of the engines this process has started."""
    out = []
    me = os.getpid()
    for task in os.listdir("/proc/%d/task" % me):
        try:
            out += [int(x) for x in open("/proc/%d/task/%s/children" % (me, task)).read().split()]
        except OSError:
            pass
    return out


def state(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return "gone"


def kill_engines():
    pids = [p for p in children() if state(p) not in ("Z", "gone")]
    for p in pids:
        os.kill(p, signal.SIGKILL)
    end = time.monotonic() + 60
    for p in pids:      # until its parent can see that it has ended, without reaping it
        try:
            while os.waitid(os.P_PID, p, os.WEXITED | os.WNOHANG | os.WNOWAIT) is None and time.monotonic() < end:
                time.sleep(0.002)
        except ChildProcessError:
            pass
    return len(pids)


class Interrupt(BaseException):
    pass


class History:
    def __init__(self, rng, r, who, big=False, faults=True):
        self.rng, self.r, self.who, self.big, self.faults, self.log = rng, r, who, big, faults, []

    def note(self, kind):
        self.log.append(kind)
        self.r.see(kind)

    def bad(self, key, **kw):
        self.r.violation(key, who=self.who, history=self.log[-8:], **kw)

    def good(self):
        e, i, lib, want, kind = good(self.rng, self.big)
        if not (e.count("(") and True):
            return
        self.r.case([self.who, len(self.log), e, i], True, {"expression": e[:200], "kind": kind})
        try:
            got = ev(e, i, lib)
        except Exception as x:
            self.bad("error-instead-of-value", expression=e[:600], inputs=common.jdump(i)[:300], error=repr(x)[:600])
            return
        finally:
            self.note("value " + kind)
        self.r.see("values")
        if not same(got, want):
            self.bad("wrong-value", expression=e[:600], inputs=common.jdump(i)[:300], got=common.jdump(got)[:300], want=common.jdump(want)[:300])

    def must_fail(self, e, kind, timeout=60, limit=None, **kw):
        self.r.case([self.who, len(self.log), e], True)
        t0 = time.monotonic()
        try:
            got = ev(e, {"v": {}}, [], timeout=timeout, **kw)
        except WorkflowException as x:
            if not isinstance(x.__cause__, (JavascriptException, WorkflowException)):
                self.bad("wrong-exception", expression=e, error=repr(x.__cause__)[:600])
        except Exception as x:
            self.bad("wrong-exception", expression=e, error=repr(x)[:600])
        else:
            self.bad("value-instead-of-error", expression=e, got=common.jdump(got)[:300], kind=kind)
        self.note(kind)
        if limit and time.monotonic() - t0 > limit:
            self.bad("not-stopped", expression=e, time_limit=timeout, after=limit)

    def step(self):
        k = self.rng.random()
        if not self.faults or k < 0.55:
            self.good()
        elif k < 0.83:
            e = self.rng.choice(BAD)
            if e.startswith('$("unterminated') or e.endswith("[1,2"):
                return
            self.must_fail(e, "script errors")
        elif k < 0.88:
            self.must_fail(self.rng.choice(RUNAWAY), "timeouts", timeout=self.rng.choice([0.2, 0.4]), limit=60)
        elif k < 0.92:
            if threading.current_thread() is threading.main_thread():
                if kill_engines():
                    self.note("engine killed between")
            self.good()
        elif k < 0.95:
            if threading.current_thread() is threading.main_thread():
                over = threading.Event()

                def killer():
                    while not over.wait(0.15):
                        kill_engines()
                t = threading.Thread(target=killer)
                t.start()
                self.must_fail("${ while (true) {} }", "engine killed during", timeout=100, limit=60)
                over.set()
                t.join()
        elif k < 0.97:
            e, i, lib, want, kind = good(self.rng, False)
            try:
                got = ev(e, i, lib, js_console=True)
                if not same(got, want):
                    self.bad("wrong-value-console", expression=e[:500], got=common.jdump(got)[:300], want=common.jdump(want)[:300])
                e2 = "${console.log('%s', inputs.v); console.error('é'); return {a: inputs.v};}" % self.rng.choice(["hello", "%s", SENTINEL])
                got = ev(e2, {"v": [1, "日"]}, [], js_console=True)
                if not same(got, {"a": [1, "日"]}):
                    self.bad("wrong-value-console", expression=e2, got=common.jdump(got)[:300])
            except Exception as x:
                self.bad("error-instead-of-value", expression=e[:500], console=True, error=repr(x)[:500])
            self.note("console values")
        else:
            self.interrupt()

    def interrupt(self):
        """An exception raised in the middle of an evaluation (as by Ctrl-C)."""
        if threading.current_thread() is not threading.main_thread():
            return

        armed = [True]

        def boom(*a):
            if armed[0]:
                armed[0] = False
                raise Interrupt()
        old = signal.signal(signal.SIGUSR2, boom)
        t = threading.Timer(0.2, os.kill, (os.getpid(), signal.SIGUSR2))
        t.start()
        try:
            try:
                ev("${ var t = Date.now(); while (Date.now() < t + 600) {} return 'stale'; }", {}, [], timeout=30)
                t.join()
            finally:
                armed[0] = False
        except Interrupt:
            self.note("interrupted")
        except Exception:
            self.note("interrupted and reported")
        t.join()
        signal.signal(signal.SIGUSR2, old)
        for _ in range(2):
            self.good()


def single(seed, n, r, slow):
    rng = C.rng("single", seed, slow)
    h = History(rng, r, "single %s%s" % (seed, " slow" if slow else ""), big=not slow)
    for _ in range(n):
        if r.viol:      # a broken engine makes every evaluation wait for its time limit
            return
        h.step()
    for e in ("$(\"ok\" + 1)", "${return [inputs.a];}"):
        if ev(e, {"a": "z"}, []) not in ("ok1", ["z"]):
            h.bad("wrong-value", expression=e)


def threaded(seed, n, r, slow):
    """Several threads at once, each with its own history; results are tied to the thread by a token."""
    results = []

    def worker(i):
        rng = C.rng("thread", seed, slow, i)
        mine = common.Result()
        results.append(mine)
        h = History(rng, mine, "thread %d of %s" % (i, seed), big=False)
        try:
            barrier.wait()
            for j in range(n):
                if mine.viol:
                    return
                tok = "tok-%d-%d-%s" % (i, j, text(rng, rng.choice([1, 50, 5000])))
                e = rng.choice(["${return inputs.t;}", "$([inputs.t][0])", "${var s=''; for (var i=0;i<3000;i++) s+='é'; return inputs.t;}"])
                mine.case([h.who, j, tok], True)
                try:
                    got = ev(e, {"t": tok}, [])
                except Exception as x:
                    h.bad("error-instead-of-value", expression=e, error=repr(x)[:500])
                else:
                    mine.see("threaded values")
                    if got != tok:
                        h.bad("wrong-value", expression=e, got=common.jdump(got)[:300], want=tok[:300])
                if rng.random() < 0.5:
                    h.step()
        except Exception as x:
            mine.inconclusive("harness: %r" % x)

    k = 4
    barrier = threading.Barrier(k)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(k)]
    for t in ts: t.start()
    for t in ts: t.join()
    for m in results: r.merge(m)
    r.see("threads", k)


def direct(seed, n, r):
    """The engine's own interface with a context shared by its evaluations."""
    rng = C.rng("direct", seed)
    eng = sandboxjs.get_js_engine()
    ctx = "({base: %d, twice: function(x){ return x * 2; }})" % int(seed)
    for _ in range(n):
        if r.viol:
            return
        x = rng.randint(0, 10 ** 6)
        kind = rng.randrange(4)
        if kind == 0:
            rc, out, err = eng.exec_js_process("throw new Error('x')", 60, context=ctx)
            if rc == 0 and "Error" not in err:
                r.violation("context-error-lost", got=[rc, out, err])
        elif kind == 1:
            rc, out, err = eng.exec_js_process("while (true) {}", 0.3, context=ctx)
            if rc == 0:
                r.violation("value-instead-of-error", got=[rc, out, err], kind="context timeout")
        rc, out, err = eng.exec_js_process("[base, twice(%d), %s]" % (x, js("é" * rng.choice([1, 5000]))), 60, context=ctx)
        r.case([seed, x, "context"], True)
        r.see("context values")
        if rc != 0 or json.loads(out)[:2] != [int(seed), 2 * x]:
            r.violation("wrong-value", context=True, got=[rc, out[:200], err[:200]])
        if eng.eval("{return %d}" % x) != x:
            r.violation("wrong-value", expression="plain after context")


def chunk(item, r):
    kind, seed, n, slow = item
    if slow:
        os.environ["PATH"] = shim(seed) + ":" + os.environ["PATH"]
    eng = sandboxjs.get_js_engine()
    getattr(eng, "localdata", threading.local()).__dict__.clear()
    with common.quiet():
        before = len(children())
        if kind == "single":
            single(seed, n, r, slow)
        elif kind == "thread":
            threaded(seed, n, r, slow)
        else:
            direct(seed, n, r)
        r.see("engines started", len(children()) - before)
        kill_engines()
    if slow:
        os.environ["PATH"] = os.environ["PATH"].split(":", 1)[1]


def body(c):
    items = []
    for s in range(scale(8, 40)):
        items.append(("single", s, scale(80, 400), False))
        items.append(("single", s, scale(12, 100), True))
    for s in range(scale(6, 30)):
        items.append(("thread", s, scale(12, 80), s % 3 == 2))
    for s in range(scale(3, 10)):
        items.append(("direct", s, scale(8, 80), False))
    c.add(common.pool_run(chunk, items, limit=scale(240, 1500)))
    for n, m in (("values", 300), ("script errors", 100), ("timeouts", 10), ("engine killed between", 5), ("engine killed during", 5),
                 ("threaded values", 200), ("context values", 15), ("interrupted", 2), ("console values", 4)):
        c.need(n, m)


if __name__ == "__main__":
    common.main(C, body)
