"""C21: results of library calls compared between a fresh process, histories, threads, hash seeds and changed files; arguments watched."""
import collections, copy, json, logging, os, pickle, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
import common, docs, gen, objdump, reqdocs, tree, wfmodel
from common import scale
from cwl_utils import cite_extract, docker_extract, inputs_schema_gen, parser
from cwl_utils.pack import pack
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2, utils as U
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions
from schema_salad.utils import yaml_no_ts

logging.disable(logging.CRITICAL)
C = common.Check("C21", "one library call on one document, after a random history, in concurrent threads (yields injected at calls), under "
                 "another hash seed or after its file was changed, compared with the same call as the first one of a process; distinct by "
                 "document content, operation and situation; non-trivial = the call returned a result (not an error)")
LOADERS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
SHARED = ("idx", "fetcher", "cache", "imports", "includes", "loaders")     # caches and records of what was fetched, shared by design


# ---- what an object looks like (before and after a call)
def options(o):
    return None if o is None else {k: objdump.dump(v) for k, v in sorted(vars(o).items()) if k not in SHARED and k != "original_doc"}


def shape(x, depth=0):
    """Everything public in objects, loading options and their original document included."""
    if objdump.is_cwl_object(x):
        out = {"::class": type(x).__module__ + "." + type(x).__name__}
        for k, v in sorted(vars(x).items()):
            if k == "loadingOptions":
                out["::options"] = options(v)
                if depth == 0:
                    out["::original"] = plain(v.original_doc)
            else:
                out[k] = shape(v, depth + 1)
        return out
    if isinstance(x, dict):
        return {"::dict": [[k, shape(v, depth + 1)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [shape(v, depth + 1) for v in x]
    return [type(x).__name__, repr(x)]


def plain(x):
    if isinstance(x, dict):
        return [[repr(k), plain(v)] for k, v in x.items()]
    if isinstance(x, list):
        return [plain(v) for v in x]
    return "%s %r" % (type(x).__name__, x)


class Watch:
    """Arguments of a call, compared before and after."""

    def __init__(self, op):
        self.op, self.changed, self.n = op, [], 0

    def call(self, fn, *args, name=None, watched=None, **kw):
        watch = (list(args) + list(kw.values()))[:watched]
        before = [self.view(a) for a in watch]
        try:
            return fn(*args, **kw)
        finally:
            self.n += len(before)
            for i, (b, a) in enumerate(zip(before, watch)):
                a = self.view(a)
                if a != b:
                    self.changed.append([name or fn.__name__, i, where(b, a)])

    def view(self, a):
        return {"options": options(a), "original": plain(a.original_doc)} if isinstance(a, LoadingOptions) else \
            shape(a) if objdump.is_cwl_object(a) or isinstance(a, (list, tuple)) else plain(a)


def where(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %.80r -> %.80r" % (path, a, b)
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k) or (k in a) != (k in b):
                return where(a.get(k), b.get(k), path + "." + str(k))
    if isinstance(a, list):
        for i in range(min(len(a), len(b))):
            if a[i] != b[i]:
                return where(a[i], b[i], "%s[%d]" % (path, i))
    return "%s: %.80r -> %.80r" % (path, a, b)


# ---- the operations; each takes (path, watch, rng) and returns a plain result
def load(path, doc, **kw):
    return parser.load_document_by_uri(path, load_all=doc["graph"], **kw)


def read(path):
    with open(path.split("#")[0], encoding="utf-8", newline="") as h:
        return h.read()


def uri(path):
    return "file://" + tree.quote(path.split("#")[0]) if hasattr(tree, "quote") else __import__("pathlib").Path(path.split("#")[0]).as_uri()


def workflows(o):
    for p in o if isinstance(o, list) else [o]:
        if isinstance(p, parser.WorkflowTypes if hasattr(parser, "WorkflowTypes") else tuple(m.Workflow for m in LOADERS.values())):
            yield p
            for s in p.steps:
                if not isinstance(s.run, str):
                    yield from workflows(s.run)


def op_load(path, doc, w):
    return objdump.dump(w.call(load, path, doc))


def op_load_options(path, doc, w):
    o = LoadingOptions(namespaces={"zz": "http://zz.example.com/#"}, no_link_check=True)
    out = objdump.dump(w.call(parser.load_document_by_uri, path, o, doc["graph"]))
    return [out, options(o)]


def op_load_yaml(path, doc, w):
    y = yaml_no_ts().load(read(path))
    return objdump.dump(w.call(parser.load_document_by_yaml, y, uri(path), None, None, doc["graph"]))


def op_load_string(path, doc, w):
    return objdump.dump(parser.load_document_by_string(read(path), uri(path), None, None, doc["graph"]))


def op_load_module(path, doc, w):
    y = yaml_no_ts().load(read(path))
    return objdump.dump(w.call(LOADERS[doc["version"]].load_document_by_yaml, y, uri(path)))


def op_version(path, doc, w):
    return w.call(parser.cwl_version, yaml_no_ts().load(read(path)))


def op_save(path, doc, w):
    o = load(path, doc)
    return [w.call(parser.save, o), w.call(parser.save, o, relative_uris=False), w.call(parser.save, o, True, uri(path), False),
            [x.save() for x in (o if isinstance(o, list) else [o])]]


def op_types(path, doc, w):
    o, v, out = load(path, doc), doc["version"], []
    for wf in workflows(o):
        w.call(infer, wf, v, out, watched=1)
    return out


def infer(wf, v, out):
    ids = [i.id for i in wf.inputs] + [x if isinstance(x, str) else x.id for s in wf.steps for x in s.out]
    for a in ids[:1] + ids[-2:] + [ids[:2], ids[::-1][:3]]:
        for link, pick in ((None, None), ("merge_nested", "all_non_null"), ("merge_flattened", "first_non_null")):
            keep = list(a)
            out.append(attempt(lambda: objdump.dump(U.type_for_source(wf, v, a, linkMerge=link, pickValue=pick))))
            assert list(a) == keep, a
        out.append(attempt(lambda: objdump.dump(U.param_for_source_id(wf, a))))
    for s in wf.steps:
        for i in s.in_[:2]:
            out.append(attempt(lambda: objdump.dump(U.type_for_step_input(s, i, v))))
        for x in s.out[:2]:
            out.append(attempt(lambda: objdump.dump(U.type_for_step_output(s, x if isinstance(x, str) else x.id, v))))


def op_assign(path, doc, w):
    o, out = load(path, doc), []
    for p in one_or_many(o):
        ts = [x.type_ for x in list(p.inputs) + list(p.outputs)][:6]
        w.call(assignable, ts, out, watched=1)
    return out


def assignable(ts, out):
    for a in ts:
        for b in ts:
            out.append(attempt(lambda: [U.check_types(a, b, None), U.can_assign_src_to_sink(a, b)]))


def op_static(path, doc, w):
    return [attempt(lambda: w.call(U.static_checker, wf)) for wf in workflows(load(path, doc))]


def op_steps(path, doc, w):
    out = []
    for wf in workflows(load(path, doc)):
        for s in wf.steps:
            out.append(attempt(lambda: objdump.dump(w.call(U.load_step, s))))
    return out


def op_docker(path, doc, w):
    # (traverse() documents that it completes the names of the images it yields)
    return [objdump.dump(list(docker_extract.traverse(p))) for p in one_or_many(load(path, doc))]


def op_cite(path, doc, w):
    return [objdump.dump(w.call(lambda p: list(cite_extract.traverse(p)), p, name="cite traverse")) for p in one_or_many(load(path, doc))]


def op_schema(path, doc, w):
    return [attempt(lambda: w.call(inputs_schema_gen.cwl_to_jsonschema, p)) for p in one_or_many(load(path, doc))]


def op_pack(path, doc, w):
    return generated(pack(path))


def one_or_many(o):
    return o if isinstance(o, list) else [o]


def generated(x):
    """Inlined types get a number added to their names."""
    if isinstance(x, dict):
        return {k: re.sub(r"_\d+$", "", v) if k == "name" and isinstance(v, str) else generated(v) for k, v in x.items()}
    return [generated(v) for v in x] if isinstance(x, list) else x


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
ANON = re.compile(r"_:[0-9a-f]{8}-[0-9a-f-]{20,}|\b[0-9a-f]{40}\b")     # (files for unnamed streams are named after the tool, anonymous names included)
RARE = ("types", "assign", "static", "schema")


def attempt(f):
    try:
        return f()
    except (Exception, SystemExit) as e:
        return "%s: %s" % (type(e).__name__, str(e))


def text(x):
    """A result as text; keys keep their order, anonymous names are numbered in order of appearance."""
    names = {}
    t = json.dumps(x, default=repr, ensure_ascii=False)
    return ANON.sub(lambda m: names.setdefault(m.group(0), "_:%d" % len(names)), t)


def perform(doc, op, d):
    w = Watch(op)
    path = os.path.join(d, doc["path"])
    got = text(attempt(lambda: OPS[op](path, doc, w)))
    return got, w.changed, w.n


def fresh(f, *args):
    """f(*args) in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            try:
                with common.quiet():
                    v = ("ok", f(*args))
            except BaseException:
                v = ("bad", traceback.format_exc())
            with os.fdopen(wr, "wb") as h:
                pickle.dump(v, h)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        return "bad", "the child died"
    return pickle.loads(data)


# ---- documents
def make(rng, d, i):
    """One document in directory d, several kinds; returns its description."""
    while True:
        try:
            return make_one(rng, d, i)
        except ValidationException:     # (the reference reader, which some kinds are made with, rejects some random documents)
            shutil.rmtree(os.path.join(d, "doc%d" % i))


def make_one(rng, d, i):
    version = rng.choice(["v1.0", "v1.1", "v1.2"])
    kind = rng.choice(["random", "random", "packed", "spread", "typed", "typed", "docker", "software", "error"])
    g = gen.Gen(rng, version, max_depth=rng.choice([1, 2]), p_opt=rng.choice([0.15, 0.35]))
    home = os.path.join(d, "doc%d" % i)
    os.makedirs(home)
    docs.setup(home)
    graph = False
    if kind == "random":
        path = reqdocs.write(home, "main.cwl", gen.Sugar(rng, version, rng.choice([0, 0.5])).proc(small(g, rng)), rng)
    elif kind == "error":
        x = small(g, rng)
        rng.choice([lambda: x.pop("class"), lambda: x.update(inputs=5), lambda: x.update(nonsense=1), lambda: x.pop("cwlVersion")])()
        path = reqdocs.write(home, "main.cwl", x, rng)
    elif kind == "packed":
        x, _ = docs.packed(g, rng)
        path, graph = reqdocs.write(home, "packed.cwl", x, rng), True
    elif kind == "spread":
        t = tree.Tree(rng, version, p_file=0.7, p_import=0.4, p=0.4, version_in_parts=1)
        t.files["wf/main.cwl"] = t.process(small(g, rng, "Workflow"), "wf/main.cwl", True)
        for f, c in t.files.items():
            reqdocs.write(home, f, c, rng)
        path = os.path.join(home, "wf/main.cwl")
    elif kind == "typed":
        w = wfmodel.WF(rng, version, home)
        if hasattr(w, "build"):
            w.build()
        path = w.write()
        graph = False
    elif kind == "docker":
        path, _, layout = reqdocs.make(g, rng, version, home, "DockerRequirement",
                                       lambda r: {"dockerPull": r.choice(["a", "b:1", "r:5000/x", "x@sha256:00"])}, lambda *a: None)
        graph = layout == "packed"
    else:
        path, _, layout = reqdocs.make(g, rng, version, home, "SoftwareRequirement",
                                       lambda r: {"packages": [{"package": r.choice("pq"), "specs": ["http://x.org/" + r.choice("ab")]}]},
                                       lambda *a: None)
        graph = layout == "packed"
    return {"path": os.path.relpath(path, d), "version": version, "kind": kind, "graph": graph, "digest": common.digest(files_of(home))}


def small(g, rng, cls=None):
    while True:
        x = gen.document(g, cls)
        if len(json.dumps(x)) < 3500:
            return x


def files_of(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = open(p, encoding="utf-8", errors="replace").read()
    return out


def ops_for(doc, rng):
    return [o for o in OPS if o not in ("pack",) or not doc["graph"]]


# ---- one batch of documents
def batch(k, r):
    rng = C.rng(k)
    d = tempfile.mkdtemp(dir=C.scratch)
    try:
        run_batch(rng, d, r)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_batch(rng, d, r):
    t0 = [time.time()]

    def lap(n):
        t1 = time.time()
        r.see("ms " + n, int((t1 - t0[0]) * 1000))
        t0[0] = t1
    ds = [make(rng, d, i) for i in range(5)]
    lap("make")
    calls = [(doc, op) for doc in ds for op in ops_for(doc, rng)]
    base = {}
    before = files_of(d)
    for doc, op in calls:
        st, v = fresh(perform, doc, op, d)
        if st == "bad":
            return r.inconclusive("first call: " + v)
        base[doc["path"], op] = v[0]
        r.see("first calls " + op)
        r.see("arguments watched", v[2])
        for name, i, diff in v[1]:
            r.violation("argument-modified-" + name, op=op, doc=doc, arg=i, diff=diff, files=show(d, doc))

    def judge(situation, doc, op, got, changed, n, **info):
        want = base[doc["path"], op]
        ok = not re.match(r'^"\w+: ', want)
        r.case([situation, doc["digest"], op], ok)
        r.see(situation + " " + op)
        r.see("arguments watched", n)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            r.violation("%s-%s" % (situation, op), doc=doc, first=want[max(0, i - 150):i + 250], now=got[max(0, i - 150):i + 250],
                        files=show(d, doc), **info)
        for name, i, diff in changed:
            r.violation("argument-modified-" + name, op=op, doc=doc, arg=i, diff=diff, files=show(d, doc))

    lap('before # histories')
    # histories
    hist = [rng.choice(calls) for _ in range(15)] + rng.sample(calls, len(calls))
    st, v = fresh(lambda: [perform(doc, op, d) for doc, op in hist])
    if st == "bad":
        return r.inconclusive("history: " + v)
    for i, ((doc, op), (got, changed, n)) in enumerate(zip(hist, v)):
        judge("history", doc, op, got, changed, n, after=[(x["path"], o) for x, o in hist[max(0, i - 6):i]])
    lap('before # threads')
    # threads
    lanes = [[rng.choice(calls) for _ in range(6)] for _ in range(4)]
    seeds = [rng.random() for _ in lanes]
    st, v = fresh(threads, lanes, seeds, d)
    if st == "bad":
        return r.inconclusive("threads: " + v)
    results, yields, overlap = v
    r.see("yields injected", yields)
    r.see("calls overlapping another", overlap)
    for lane, res in zip(lanes, results):
        for (doc, op), (got, changed, n) in zip(lane, res):
            judge("thread", doc, op, got, changed, n)
    lap('before # hash seeds')
    # hash seeds
    spec = os.path.join(d, "spec.json")
    for seed in rng.sample(range(1, 4000000), 1):
        some = rng.sample(calls, min(len(calls), 25))
        with open(spec, "w") as h:
            json.dump([d, some], h)
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--child", spec], capture_output=True, text=True,
                           env={**os.environ, "PYTHONHASHSEED": str(seed)})
        if p.returncode:
            return r.inconclusive("child: " + p.stderr[-1500:])
        for (doc, op), got in zip(some, json.loads(p.stdout)):
            judge("hashseed", doc, op, got, [], 0, seed=seed)
    os.remove(spec)
    lap('before # the content of')
    # the content of a file changes while the process lives
    a, b = rng.sample(ds, 2)
    x, y = os.path.dirname(a["path"]).split("/")[0], os.path.dirname(b["path"]).split("/")[0]
    ops = [o for o in ops_for(a, rng)]
    st, v = fresh(changing, a, b, x, y, ops, d)
    if st == "bad":
        return r.inconclusive("changing: " + v)
    for op, one, two, back in v:
        r.case(["changed", a["digest"], b["digest"], op])
        r.see("changed " + op)
        if one != two:
            i = next((i for i, (p, q) in enumerate(zip(one, two)) if p != q), min(len(one), len(two)))
            r.violation("stale-" + op, a=a, b=b, first=one[max(0, i - 150):i + 250], now=two[max(0, i - 150):i + 250])
    # a file is edited while the process lives
    a = max(ds, key=lambda x: (x["kind"] in ("docker", "software", "spread"), len(files_of(os.path.join(d, os.path.dirname(x["path"]).split("/")[0])))))
    x = os.path.dirname(a["path"]).split("/")[0]
    b = dict(a, path=a["path"].replace(x, "edited", 1))
    shutil.copytree(os.path.join(d, x), os.path.join(d, "edited"))
    if edit(rng, os.path.join(d, "edited")):
        st, v = fresh(changing, a, b, x, "edited", ops_for(a, rng), d)
        if st == "bad":
            return r.inconclusive("edited: " + v)
        for op, one, two, old in v:
            r.case(["edited", a["digest"], op], one != old)
            r.see("edited " + op)
            if one != old:
                r.see("edited with another result")
            if one != two:
                i = next((i for i, (p, q) in enumerate(zip(one, two)) if p != q), min(len(one), len(two)))
                r.violation("stale-" + op, a=a, first=one[max(0, i - 150):i + 250], now=two[max(0, i - 150):i + 250], files=show(d, a))
    shutil.rmtree(os.path.join(d, "edited"))
    lap('before after = files_of(d)')
    after = files_of(d)
    if after != before:
        r.violation("file-modified", files=[f for f in set(after) | set(before) if after.get(f) != before.get(f)])


EDITS = [(r"\bb:1\b", "z:9"), (r"r:5000/x", "r:5001/y"), (r"(package[\"']?: ?[\"']?)[pq]\b", r"\1changed"), (r"\bint\b", "float"), (r"x\.org/[ab]\b", "x.org/c"),
         (r"\bboolean\b", "double"), (r"x@sha256:00", "x@sha256:11"), (r"\bstring\b", "long"), (r"\bFile\b", "Directory")]


def edit(rng, d):
    """Changes the text of some of the files (whether they are valid then or not)."""
    n = 0
    for base, _, names in os.walk(d):
        for f in names:
            p = os.path.join(base, f)
            if rng.random() < 0.8:
                with open(p, encoding="utf-8", errors="surrogateescape", newline="") as h:
                    text = new = h.read()
                for old, y in [e for e in EDITS[:7] if rng.random() < 0.8] + [e for e in EDITS[7:] if rng.random() < 0.1]:
                    new = re.sub(old, y, new)
                if new != text:
                    n += 1
                    with open(p, "w", encoding="utf-8", errors="surrogateescape", newline="") as h:
                        h.write(new)
    return n


def changing(a, b, x, y, ops, d):
    """Document a is used, then replaced by document b under the same names; its results must be those of b there."""
    home = os.path.join(d, "place")
    want, out = {}, []
    b2 = dict(b, path=os.path.join("place", os.path.relpath(b["path"], y)))
    a2 = dict(a, path=os.path.join("place", os.path.relpath(a["path"], x)))
    shutil.copytree(os.path.join(d, y), home)
    if a2["path"] != b2["path"]:        # the same file name, whatever it was called
        os.makedirs(os.path.dirname(os.path.join(d, a2["path"])), exist_ok=True)
    for op in ops:
        if op == "pack" and b["graph"]:
            continue
        st, v = fresh(perform, b2, op, d)
        want[op] = v[0] if st == "ok" else None
    shutil.rmtree(home)
    shutil.copytree(os.path.join(d, x), home)
    pa, pb = os.path.join(d, a2["path"]).split("#")[0], os.path.join(d, b2["path"]).split("#")[0]
    if pa != pb:
        os.makedirs(os.path.dirname(pb), exist_ok=True)
        shutil.copy(pa, pb)
    alias = dict(a2, path=os.path.relpath(pb, d) + ("#" + a2["path"].split("#")[1] if "#" in a2["path"] else ""))
    old = {op: perform(alias, op, d)[0] for op in ops}
    shutil.rmtree(home)
    shutil.copytree(os.path.join(d, y), home)
    for op in want:
        out.append((op, want[op], perform(b2, op, d)[0], old[op]))
    shutil.rmtree(home)
    return out


def threads(lanes, seeds, d):
    """Each lane is a thread; the interpreter switches between them all the time, and at random calls of cwl_utils in one of them."""
    sys.setswitchinterval(1e-5)
    root = common.REPO + "/src/"
    out = [[] for _ in lanes]
    running, stat = [0], collections.Counter()
    lock = threading.Lock()
    gate = threading.Barrier(len(lanes))

    def work(i):
        rng = random.Random(seeds[i])

        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(root) and rng.random() < 0.05:
                stat["yields"] += 1
                time.sleep(0)
            return None

        gate.wait()
        if i == 0:
            sys.settrace(tracer)
        try:
            for doc, op in lanes[i]:
                with lock:
                    running[0] += 1
                    if running[0] > 1:
                        stat["overlap"] += 1
                out[i].append(perform(doc, op, d))
                with lock:
                    running[0] -= 1
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(lanes))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out, stat["yields"], stat["overlap"]


def show(d, doc):
    f = files_of(os.path.join(d, doc["path"].split("/")[0]))
    return {k: v[:1500] for k, v in list(f.items())[:4] if v}


def child(spec):
    d, calls = json.load(open(spec))
    with common.quiet():
        out = [perform(doc, op, d)[0] for doc, op in calls]
    json.dump(out, sys.stdout)
    shutil.rmtree(C.scratch, ignore_errors=True)


def body(c):
    for s in ("history", "thread", "hashseed", "changed"):
        for op in OPS:
            c.need("%s %s" % (s, op), 5)
    c.need("arguments watched", 2000)
    c.need("edited with another result", 30)
    c.need("yields injected", 300)
    c.need("calls overlapping another", 100)
    c.add(common.pool_run(batch, range(scale(14, 500))))


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2])
    else:
        common.main(C, body)
