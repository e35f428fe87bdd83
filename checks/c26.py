"""C26 engines supplied by the caller: recording engines of several kinds evaluate random strings; their logs and results are checked."""
import asyncio, copy, functools, json, threading
import common
from common import scale
from cwl_utils import expression, sandboxjs
from cwl_utils.errors import JavascriptException, WorkflowException
from cwl_utils.expression import do_eval, interpolate

C = common.Check("C26", "one string of literal text, parameter references and JavaScript fragments of known values, evaluated by do_eval or "
                 "interpolate with an engine of the caller's that records its calls (methods plain, coroutines, wrapped coroutines, futures; "
                 "given as argument or set as default; in the main thread or another); distinct by string, engine kind and options; "
                 "non-trivial = it holds a fragment")

LIT = ["", "a", " x ", "é", "1", "{}", "$", "$x", "\\\\", "q\"q", "]", "\n"]
VALS = [None, True, False, 0, 1, -3, 2.5, "", "s", "é", "$(1)", "a b", [], [1, "x"], {}, {"k": [None]}, "\"", "line\nline"]
KINDS = ["plain", "coroutine", "future", "wrapped", "mixed", "callable"]


class Wrong(Exception):
    pass


class Recorder(sandboxjs.JSEngine):
    """Answers from a table, asserts nothing, remembers everything."""
    def __init__(self, answers):
        self.answers, self.log = answers, []

    def answer(self, text):
        key = "".join(text.split())
        for k, v in self.answers.items():
            if "/*%s*/" % k in key:
                if isinstance(v, Exception):
                    raise v
                return copy.deepcopy(v)
        raise Wrong(text)

    def _eval(self, scan, jslib="", **kw):
        self.log.append(("eval", scan, jslib, kw, threading.get_ident()))
        return self.answer(scan)

    def _regex(self, parsed_string, remaining_string, current_value, **kw):
        first, rest, value = parsed_string, remaining_string, current_value
        self.log.append(("regex", first, rest, copy.deepcopy(value), kw))
        r = self.walk(first, rest, value)
        return r

    def walk(self, first, rest, value):
        return sandboxjs.NodeJSEngine.regex_eval(NODE, first, rest, value)

    def eval(self, *a, **k):
        return self._eval(*a, **k)

    def regex_eval(self, *a, **k):
        return self._regex(*a, **k)


NODE = sandboxjs.NodeJSEngine()


class Coroutine(Recorder):
    async def eval(self, *a, **k):
        await asyncio.sleep(0)
        return self._eval(*a, **k)

    async def regex_eval(self, *a, **k):
        await asyncio.sleep(0)
        return self._regex(*a, **k)


class Mixed(Recorder):
    async def eval(self, *a, **k):
        return self._eval(*a, **k)


def traced(f):
    @functools.wraps(f)
    def g(*a, **k):
        return f(*a, **k)
    del g.__wrapped__
    return g


class Wrapped(Coroutine):
    """A decorated coroutine function is a plain one that returns an awaitable."""
    eval = traced(Coroutine.eval)
    regex_eval = traced(Coroutine.regex_eval)


class Later:
    def __init__(self, f):
        self.f = f

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        return self.f()


class Future(Recorder):
    def eval(self, *a, **k):
        return Later(lambda: self._eval(*a, **k))

    def regex_eval(self, *a, **k):
        return Later(lambda: self._regex(*a, **k))


class Method:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class Callable(Recorder):
    def __init__(self, answers):
        super().__init__(answers)
        self.eval, self.regex_eval = Method(self._eval), Method(self._regex)


CLS = {"plain": Recorder, "coroutine": Coroutine, "future": Future, "wrapped": Wrapped, "mixed": Mixed, "callable": Callable}


def build(rng, js):
    """Parts of a string: ("lit", text) | ("ref", text, value, symbol) | ("js", text, key)."""
    ctx = {"inputs": {"a": rng.choice(VALS), "b": {"c": rng.choice(VALS), "d e": rng.choice(VALS)}, "n": [rng.choice(VALS), 7]},
           "self": rng.choice(VALS + [{"x": 1}]), "runtime": {"cores": 2}}
    answers, parts = {}, []
    n = rng.choice([1, 1, 1, 2, 3, 5])
    alone = n == 1 and rng.random() < 0.6
    for i in range(n):
        if not alone and rng.random() < 0.7:
            parts.append(("lit", rng.choice([x for x in LIT if not x.endswith(("$", "\\"))])))
        if js and rng.random() < 0.6:
            k = "k%d" % i
            v = answers[k] = rng.choice(VALS)
            if rng.random() < 0.1:
                v = answers[k] = rng.choice([JavascriptException("engine says no"), WorkflowException("other"), RuntimeError("broken")])
            t = rng.choice(["$(/*%s*/ 1 + 1)", "${/*%s*/ return {a: [1]}; }", "$(/*%s*/ inputs.a + ')')", "$(f(/*%s*/ {}))"]) % k
            parts.append(("js", t, v, k))
        else:
            t, v = rng.choice([("inputs.a", ctx["inputs"]["a"]), ("inputs.b.c", ctx["inputs"]["b"]["c"]),
                               ("inputs['b'].c", ctx["inputs"]["b"]["c"]), ('inputs.b["d e"]', ctx["inputs"]["b"]["d e"]),
                               ("inputs.n[1]", 7), ("inputs.n.length", 2), ("inputs.n[0]", ctx["inputs"]["n"][0]),
                               ("self", ctx["self"]), ("runtime.cores", 2), ("inputs.b", ctx["inputs"]["b"])])
            parts.append(("ref", "$(%s)" % t, v, t))
    if not alone and rng.random() < 0.7:
        parts.append(("lit", rng.choice(LIT[1:5])))
    return ctx, answers, parts


def one(rng, r):
    js = rng.random() < 0.7
    ctx, answers, parts = build(rng, js)
    text = "".join(p[1] for p in parts)
    if len(parts) > 1 or parts[0][0] == "lit":
        text = text.strip()
    frag = [p for p in parts if p[0] != "lit"]
    kind = rng.choice(KINDS)
    engine = CLS[kind](answers)
    lib = rng.choice([[], ["function f(x) { return 3; }"], ["var Q1 = 1;", "var Q2 = 2;"]])
    opts = {k: v for k, v in (("force_docker_pull", True), ("debug", True), ("js_console", True), ("container_engine", "podman"),
                              ("my_own", rng.choice([{"z": 1}, 0, False, ""])), ("retries", 0), ("debug2", None)) if rng.random() < 0.3}
    timeout = rng.choice([None, 1.5, 77, 300])
    given = rng.random() < 0.6
    thread = rng.random() < 0.4
    version = rng.choice(["v1.0", "v1.1", "v1.2"])
    direct = rng.random() < 0.3
    used = rng.random() < 0.2      # an event loop of the caller's is set
    info = dict(text=text, kind=kind, given=given, thread=thread, js=js, direct=direct, opts=sorted(opts), loop=used)
    # the expected value
    fault = next((p[2] for p in frag if isinstance(p[2], Exception)), None)
    if fault is None:
        if len(frag) == 1 and text == frag[0][1]:
            want = frag[0][2]
        else:
            want = "".join(p[1].replace("\\\\", "\\") if p[0] == "lit" else p[2] if isinstance(p[2], str) else json.dumps(p[2], sort_keys=True)
                           for p in parts)
            want = want if want == want.strip() else None       # (stripping of the string may eat spaces of values)
            if want is None:
                return
    r.case([text, kind, given, thread, sorted(opts)], bool(frag), info)
    out = {}

    def call():
        loop = None
        if used:
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
        reqs = [{"class": "InlineJavascriptRequirement", "expressionLib": lib}] if js else []
        kw = dict(opts)
        if timeout is not None:
            kw["timeout"] = timeout
        if given:
            kw["js_engine"] = engine
        try:
            if direct:
                if "timeout" not in kw and rng.random() < 0.5:
                    kw["timeout"] = 20
                v = {"inputs": ctx["inputs"], "self": ctx["self"], "runtime": {**ctx["runtime"], "tmpdir": "/t", "outdir": "/o"}}
                out["value"] = interpolate(text, v, expression.jshead(lib, v) if js else "", js, **kw)
                return
            out["value"] = do_eval(text, ctx["inputs"], reqs, "/o", "/t", {"cores": 2}, context=ctx["self"], cwlVersion=version, **kw)
        except BaseException as e:
            out["error"] = e
        finally:
            if loop:
                r.see("caller's loop still usable" if not loop.is_closed() else "loop closed")
                if loop.is_closed() or asyncio.get_event_loop() is not loop:
                    out["loop"] = True
                loop.close()
                asyncio.set_event_loop(None)
    default = sandboxjs.get_js_engine()
    other = Recorder({})
    before = common.jdump(ctx)
    try:
        sandboxjs.set_js_engine(other if given else engine)
        with common.quiet():
            if thread:
                t = threading.Thread(target=call)
                t.start()
                t.join()
            else:
                call()
        if sandboxjs.get_js_engine() is not (other if given else engine):
            r.violation("default-engine-replaced", **info)
    finally:
        sandboxjs.set_js_engine(default)
    r.see("engine " + kind)
    if direct:
        r.see("by interpolate")
    if thread:
        r.see("in a thread")
    r.see("given" if given else "set as default")
    err = out.get("error")
    if out.get("loop"):
        r.violation("event-loop-of-caller", **info)
    if other.log:
        r.violation("another-engine-used", calls=[x[:2] for x in other.log], **info)
    if common.jdump(ctx) != before:
        r.violation("context-modified", **info)
    if fault is not None:
        r.see("engine raises")
        if err is None:
            r.violation("engine-error-lost", got=repr(out.get("value"))[:300], **info)
        elif not isinstance(err, type(fault) if direct else WorkflowException) or str(fault) not in str(err):
            r.violation("engine-error-changed", error=repr(err)[:600], **info)
        frag = frag[:1 + next(i for i, p in enumerate(frag) if isinstance(p[2], Exception))]
    elif err is not None:
        r.violation("evaluation-fails", error="%s: %s" % (type(err).__name__, str(err)[:700]), **info)
        return
    elif type(out["value"]) is not type(want) or out["value"] != want:
        r.violation("value-differs", got=repr(out["value"])[:500], expected=repr(want)[:500], **info)
        return
    # the engine's log
    evals, regex = [x for x in engine.log if x[0] == "eval"], [x for x in engine.log if x[0] == "regex"]
    wanted = [p for p in frag if p[0] == "js"]
    got = ["".join(x[1].split()) for x in evals]
    if len(evals) != len(wanted) or any("/*%s*/" % p[3] not in g for p, g in zip(wanted, got)):
        r.violation("calls-of-eval", expected=[p[1] for p in wanted], got=[x[1] for x in evals], **info)
        return
    r.see("evals recorded", len(evals))
    refs = [p for p in frag if p[0] == "ref"]
    if len(regex) != len(refs):
        r.violation("calls-of-regex_eval", expected=[p[1] for p in refs], got=[x[1:3] for x in regex], **info)
        return
    for p, x in zip(refs, regex):
        if "".join(p[3].split()) != "".join((x[1] + x[2]).split()) or common.jdump(x[3]) != common.jdump({**ctx, "runtime": {**ctx["runtime"], "tmpdir": "/t", "outdir": "/o"}}[x[1]]):
            r.violation("calls-of-regex_eval", expected=p[1], got=x[1:3], **info)
    r.see("references recorded", len(regex))
    for x in evals:
        # what the engine needs: library, variables, limits
        missing = [y for y in lib if y not in x[2]] + [k for k in ("inputs", "self", "runtime") if "var %s" % k not in x[2]]
        if missing:
            r.violation("library-not-given", missing=missing, got=x[2][:600], **info)
    for x in engine.log:
        kw = x[3] if x[0] == "eval" else x[4]
        wrong = {k: kw.get(k, "absent") for k in opts if kw.get(k, "absent") != opts[k]}
        if timeout is not None and kw.get("timeout", "absent") != timeout:
            wrong["timeout"] = kw.get("timeout", "absent")
        if wrong:
            r.violation("options-not-given", call=x[0], wrong=wrong, **info)
        r.see("options compared", len(opts))


def chunk(k, r):
    rng = C.rng("engines", k)
    import warnings
    warnings.simplefilter("ignore")
    for _ in range(scale(220, 2500)):
        one(rng, r)


def body(c):
    for k in KINDS:
        c.need("engine " + k, 200)
    for k in ("in a thread", "by interpolate", "given", "set as default", "engine raises", "evals recorded", "references recorded", "options compared"):
        c.need(k, 300 if k != "engine raises" else 100)
    c.add(common.pool_run(chunk, range(scale(16, 64))))


common.main(C, body)
