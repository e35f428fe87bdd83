"""One workload, many times over, in a process of its own; prints what of the process changed. Run by checks/c28.py."""
import gc, json, os, random, signal, sys, tempfile, threading, traceback, warnings


def children():
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as h:
                    f = h.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if f[1] == str(os.getpid()):
                out.append((int(p), f[0], f[19]))
    return out


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out


def files(d):
    return sorted(os.path.relpath(os.path.join(a, x), d) for a, b, c in os.walk(d) for x in b + c)


def state(tmp):
    gc.collect()
    umask = os.umask(0o22)
    os.umask(umask)
    return {"processes": len(children()), "open files": len(fds()), "threads": threading.active_count(),
            "temporary files": files(tmp), "directory": os.getcwd(), "environment": sorted(os.environ.items()),
            "path": list(sys.path), "umask": umask, "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM,
            signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)], "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(), "hash": sys.flags.hash_randomization}


def main():
    unit, seed, n, d = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    rng = random.Random(unit + seed)
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    import logging
    logging.disable(logging.CRITICAL)
    from cwl_utils import expression, sandboxjs
    from cwl_utils.expression import do_eval
    import cwl_utils.parser as parser
    R = [{"class": "InlineJavascriptRequirement"}]
    count = {"ended": 0, "failed": 0}

    def ev(x, *want, **k):
        try:
            v = do_eval(x, {}, k.pop("reqs", R), None, None, {}, **k)
        except Exception as e:
            count["failed"] += 1
            return type(e).__name__
        count["ended"] += 1
        return v

    def run(f, *a):
        out, err = sys.stdout, sys.stderr
        with open(os.devnull, "w") as null:
            sys.stdout = sys.stderr = null
            try:
                f(*a)
                count["ended"] += 1
            except (Exception, SystemExit) as e:
                count["failed"] += bool(getattr(e, "code", 1))
                count["ended"] += not getattr(e, "code", 1)
            finally:
                sys.stdout, sys.stderr = out, err

    def kill():
        for pid, _, _ in children():
            os.kill(pid, signal.SIGKILL)
        while any(s not in "ZX" for _, s, _ in children()):
            threading.Event().wait(0.01)

    def many(f, k):
        ts = [threading.Thread(target=f) for _ in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]

    doc = os.path.join(d, "docs", "main.cwl")
    bad = os.path.join(d, "docs", "bad.cwl")
    o = os.path.join(d, "out")

    def evaluate():
        ev("$(%d + 1)" % rng.randrange(9)); ev("a$([1].length)b")

    def threads():
        many(lambda: (ev("$(1 + 1)"), ev("$(x.y)")), rng.choice([1, 2, 4]))

    def fails():
        ev(rng.choice(["$(x.y.z)", "${throw 1}", "$({)", "${return", "$(Function('}')())", "$(null.a)"]))
        ev("${throw new Error('" + "e" * rng.choice([10, 9000]) + "')}")

    def slow():
        ev("${while(true){}}", timeout=0.15)

    def slow_threads():
        many(lambda: ev("${while(true){}}", timeout=0.15), 2)

    def dies():
        ev("$(1 + 1)"); kill(); ev("$(2 + 2)")

    def dies_within():
        ev("$(1 + 1)"); t = threading.Timer(0.1, kill); t.start(); ev("${while(true){}}", timeout=5); t.join()

    def console():
        ev("${console.log('x'); return 1;}", js_console=True)
        ev("${console.log('x'); throw 1;}", js_console=True)

    def library():
        ev("$(f(2))", reqs=[dict(R[0], expressionLib=["function f(x){return x + %d;}" % rng.randrange(99)])])

    def large():
        ev("${var a = ''; for (var i = 0; i < 90000; i++) { a += 'x'; } return a;}")

    def own_engine():
        e = sandboxjs.NodeJSEngine()
        for code, context in (("1", None), ("x.y", "var a=1"), ("while(true){}", None), ("1", "var a=2"), ("1", None)):
            try:
                e.exec_js_process(code, timeout=0.2, context=context)
                count["ended"] += 1
            except Exception:
                count["failed"] += 1
            ev("$(1 + 1)", js_engine=e)

    def same_context():
        e = keep.setdefault("e", sandboxjs.NodeJSEngine())
        e.exec_js_process("1", context="var a = 1")
        e.exec_js_process("while(true){}", timeout=0.2, context="var a = 1")
        count["ended"] += 2

    def old_node():
        # the local Node.js is too old: the container engine's is used
        e = keep.setdefault("o", sandboxjs.NodeJSEngine())
        for _ in range(4):
            if ev("$(1 + 1)", js_engine=e, timeout=20) == 2:
                break
        kill()

    def forked():
        # a copy of the program, which has copies of the engines, but they are not its own
        ev("$(1 + 1)")
        a, b = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                v = ev("$(40 + 2)")
                os.write(b, json.dumps([v, children()]).encode())
            finally:
                os._exit(0)
        os.close(b)
        with os.fdopen(a) as h:
            v, kids = json.load(h)
        os.waitpid(pid, 0)
        keep.setdefault("grand", []).extend(kids)
        assert v == 42 and ev("$(50 + 3)") == 53, v

    def load():
        for p in (doc, bad):
            run(parser.load_document_by_uri, p)
            run(lambda: parser.load_document_by_string(open(p).read(), "file://" + p))

    def pack():
        from cwl_utils import pack as m, pack_cli
        for p in (doc, bad):
            run(m.pack, p)
        run(lambda: pack_cli.run(pack_cli.parse_args([doc, o + "/p.cwl"])))

    def split():
        from cwl_utils import graph_split as m
        for p in (os.path.join(d, "docs", "graph.cwl"), bad):
            run(lambda: m.run(m.parse_args(["-C", o, p])))

    def refactor():
        from cwl_utils import expression_refactor as m
        for p in (doc, bad):
            run(lambda: m.run(m.parse_args([o, p])))

    def normalize():
        from cwl_utils import normalizer as m
        for p in (doc, bad, os.path.join(d, "docs", "old.cwl")):
            run(lambda: m.run(m.parse_args([o, p])))

    def cite():
        from cwl_utils import cite_extract as m
        for p in (doc, bad):
            run(lambda: m.run(m.parse_args([p])))

    def images():
        from cwl_utils import docker_extract as m
        for p in (doc, bad):
            run(lambda: m.run(m.parse_args([p, "--dir", o] + rng.choice([[], ["--singularity"]]))))

    def schema():
        from cwl_utils import inputs_schema_gen as m
        for p in (doc, bad):
            run(lambda: m.run(m.parse_args([p])))

    keep = {}
    f = locals()[unit]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(2):
            f()
        before = state(tmp)
        for _ in range(n):
            f()
        after = state(tmp)
    kids = children() + keep.get("grand", [])
    res = {"before": before, "after": after, "count": count, "children": kids, "open": sorted(fds().values())}
    print(json.dumps(res), flush=True)
    end = sys.argv[5]
    if end == "error":
        raise RuntimeError("end")
    if end == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    if end == "interrupt":
        os.kill(os.getpid(), signal.SIGINT)
        threading.Event().wait(5)
    if end == "exit":
        sys.exit(3)


main()
