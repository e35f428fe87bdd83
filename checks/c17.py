"""C17 normalising: documents and what the normaliser makes of them executed and compared, one by one and several together."""
import contextlib, io, json, logging, os, re, shutil, subprocess, sys
import common, exprdocs as X
from common import scale
from exprdocs import attempt, classes, read, tree, write
from cwl_utils import normalizer as N
from cwl_utils.parser import load_document_by_uri

C = common.Check("C17", "one normalisation of a random tool, ExpressionTool or workflow of some version (with external processes of the same or "
                 "older versions, $import, $include, SchemaDef, defaults), whose result is executed with the same inputs as the original after "
                 "the documents it was made of are gone; distinct by document, switches and job",
                 assumptions=["cwltool executes the documents (its JavaScript engine and staging are trusted)", "node is what \"nodejs\" runs",
                              "cwlupgrader upgrades single processes correctly"])
PLAIN = "--no-expression-refactoring"
MODES = [[], [], ["--etools"], ["--etools"], [PLAIN], [PLAIN], [PLAIN], ["--skip-some1"], ["--etools", "--skip-some2"]]
VERSIONS = ["v1.0", "v1.1", "v1.2"]
ALLOWED = {"--skip-some1": re.compile(r"/inputBinding/|/arguments"), "--skip-some2": re.compile(r"outputEval|/listing")}


def normalize(args):
    """(exit status, log, exception)"""
    log = io.StringIO()
    h = logging.StreamHandler(log)
    N._logger.removeHandler(N.defaultStreamHandler)
    N._logger.addHandler(h)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return N.run(N.parse_args(args)), log, None
            except Exception as e:
                return None, log, e
    finally:
        N._logger.removeHandler(h)
        N._logger.addHandler(N.defaultStreamHandler)


def links(x, path=""):
    """References to other documents: (path, link)."""
    if isinstance(x, dict):
        for k, v in x.items():
            p = "%s/%s" % (path, k)
            if k in ("$import", "$include", "$mixin"):
                yield p, v
            elif k == "run" and isinstance(v, str) and not v.startswith("#"):
                yield p, v
            elif k in ("type", "items") and isinstance(v, str) and "#" in v[1:]:
                yield p, v
            elif k not in ("default", "doc", "label"):
                yield from links(v, p)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from links(v, "%s[%d]" % (path, i))
            if isinstance(v, str) and path.endswith("/type") and "#" in v[1:]:
                yield path, v


def versions(x, top=True):
    if isinstance(x, dict):
        if "cwlVersion" in x and "class" in x:
            yield x["cwlVersion"]
        for v in x.values():
            yield from versions(v, False)
    elif isinstance(x, list):
        for v in x:
            yield from versions(v, False)


def judge(r, out, mode, docs, info):
    """The written document, given alone."""
    try:
        with open(out, encoding="utf-8") as f:
            saved = json.load(f)
        if saved != read(out):
            r.violation("json-and-yaml-differ", **info)
    except Exception as e:
        r.violation("not-json", error=str(e)[:500], **info)
        return None
    if saved.get("cwlVersion") != "v1.2" or set(versions(saved)) - {"v1.2"}:
        r.violation("not-v1.2", got=sorted(set(versions(saved)) | {str(saved.get("cwlVersion"))}), **info)
    rest = list(links(saved))
    if rest:
        r.violation("not-packed", links=rest[:4], **info)
    if PLAIN in mode:
        r.see("expressions kept", len(list(X.left(saved))))
        n = [sum(1 for x in docs for c, _ in classes(x) if c == "ExpressionTool"), sum(1 for c, _ in classes(saved) if c == "ExpressionTool")]
        if n[0] != n[1] and len(docs) == 1:
            r.violation("ExpressionTools-changed", count=n, **info)
    else:
        rest = [(p, e) for p, e in X.left(saved) if not any(m in mode and a.search(p) for m, a in ALLOWED.items())]
        if rest:
            r.violation("expressions-left", left=rest[:4], **info)
        if "--etools" not in mode and any(c == "ExpressionTool" for c, _ in classes(saved)):
            r.violation("ExpressionTools-left", **info)
    try:
        with common.quiet():
            load_document_by_uri(out)
    except Exception as e:
        r.violation("invalid", error=str(e)[:800], **info)
    return saved


def wrapped(rng, doc, name, r):
    """A workflow of the same or a newer version with one step that runs the document."""
    v = rng.choice(VERSIONS[VERSIONS.index(doc["cwlVersion"]):])
    r.see("wrapped")
    if v != doc["cwlVersion"]:
        r.see("older step")
    optional = ["null", "Any"]
    w = {"cwlVersion": v, "class": "Workflow", "requirements": [{"class": "SubworkflowFeatureRequirement"}],
         "inputs": {n: {"type": optional, **({"default": i["default"]} if isinstance(i, dict) and "default" in i and rng.random() < 0.5 else {})}
                    for n, i in doc["inputs"].items()},
         "outputs": {o.replace("-", "_"): {"type": optional, "outputSource": "the_step/" + o} for o in doc["outputs"]},
         "steps": {"the_step": {"in": {n: rng.choice([n, {"source": n}]) for n in doc["inputs"]}, "out": list(doc["outputs"]),
                                "run": name if rng.random() < 0.7 else {"$import": name}}}}
    return w


def one(item, r):
    rng = C.rng("random", item)
    d = os.path.join(C.scratch, "r%s" % item)
    os.makedirs(d + "/o/sub")
    try:
        mode, version = rng.choice(MODES), rng.choice(VERSIONS)
        D = X.Docs(rng, version, "--etools" in mode, contents="--etools" not in mode)
        doc, env = D.document()
        name = rng.choice(["doc.cwl", "doc.cwl", "a-b.json", "tool.v1.yml", "é.cwl"])
        for f, x in D.files.items():
            if x["class"] != "Workflow" and rng.random() < 0.3:
                old = rng.choice(VERSIONS[:VERSIONS.index(version) + 1])
                if old != version:
                    x["cwlVersion"] = old
                    r.see("older step")
        if doc["outputs"] and rng.random() < 0.3:
            D.files["inner.cwl"] = doc
            doc = wrapped(rng, doc, "inner.cwl", r)
        outdir = rng.choice([d + "/o", d + "/o/sub"])
        path, out = os.path.join(d, name), os.path.join(outdir, name)
        write(path, doc, rng)
        X.write_texts(d)
        for f, x in D.files.items():
            write(os.path.join(d, f), x, rng)
        jobs = [D.job(env, d) for _ in range(scale(1, 2))]
        files = tree(d)
        info = {"item": item, "mode": mode, "doc": doc, "files": D.files}
        rc, log, exc = normalize([*mode, outdir, path])
        if exc is not None:
            common.crashed(exc, r, info)
            return
        r.see("documents")
        r.see("mode %s" % " ".join(mode))
        r.see(version)
        now = tree(d)
        if {k: v for k, v in now.items() if not k.startswith("o/")} != files:
            r.violation("original-modified", **info)
        r.case((doc, mode, jobs), True, {"document": doc, "switches": mode, "job": jobs[0]} if len(json.dumps(doc)) < 3000 else None)
        if rc != 0:
            r.violation("refused", rc=rc, log=log.getvalue()[-2500:], **info)
            return
        written = sorted(os.path.join(d, k) for k in now if k.startswith("o/"))
        if written != [out]:
            r.violation("written", found=written, expected=out, **info)
            if out not in written:
                return
        if judge(r, out, mode, [doc, *D.files.values()], info) is None:
            return
        for k, n in D.seen.items():
            r.see("with " + k, n)
        wants = [attempt(path, job, d) for job in jobs]
        for f in [name, *D.files, "lib.js", "types.yml"]:
            os.remove(os.path.join(d, f))
        for job, (want, error) in zip(jobs, wants):
            if error:
                r.see("original does not run")
                continue
            got, error = attempt(out, job, d)
            if error == "lost":
                continue
            r.see("compared")
            r.see("outputs compared", len(want))
            if error:
                r.violation("normalised-fails", error=error, job=job, **info)
            elif got != want:
                r.violation("outputs-differ", job=job, want={k: v for k, v in want.items() if got.get(k) != v},
                            got={k: v for k, v in got.items() if want.get(k) != v}, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- several documents

JS = {"class": "InlineJavascriptRequirement"}


def plain(version, n):
    return {"cwlVersion": version, "class": "CommandLineTool", "baseCommand": "echo", "inputs": {"x%d" % n: "string"},
            "arguments": ["$(inputs.x%d)" % n], "stdout": "o%d.txt" % n,
            "outputs": {"out": {"type": "File", "outputBinding": {"glob": "o%d.txt" % n}}}}


def with_expr(version, n):
    return dict(plain(version, n), requirements=[JS], arguments=["$(inputs.x%d + '')" % n])


def graph(version, n):
    t = plain(version, n)
    del t["cwlVersion"]
    return {"cwlVersion": version, "$graph": [
        dict(t, id="tool"), {"class": "Workflow", "id": "main", "inputs": {"x%d" % n: "string"}, "outputs": {"out": {"type": "File", "outputSource": "s/out"}},
                             "steps": {"s": {"run": "#tool", "in": {"x%d" % n: "x%d" % n}, "out": ["out"]}}}]}


def graph_expr(version, n=0):
    g = graph(version, n)
    g["$graph"][0].update(requirements=[JS], arguments=["$(inputs.x%d + '')" % n])
    return g


GOOD = {"plain": plain, "expr": with_expr, "graph": graph}
BAD = {
    "unsupported version": lambda v: dict(plain(v, 0), cwlVersion="v1.9"),
    "no version": lambda v: {k: x for k, x in plain(v, 0).items() if k != "cwlVersion"},
    "invalid": lambda v: dict(plain(v, 0), arguments=[{"valueFrom": "a", "bogus": 1}]),
    "bad type": lambda v: dict(plain(v, 0), inputs={"x0": "strong"}),
    "not CWL": lambda v: ["just", "a list"],
    "syntax error": None,
    "missing": None,
    "missing run": lambda v: {"cwlVersion": v, "class": "Workflow", "inputs": {}, "outputs": {},
                              "steps": {"s": {"in": {}, "out": [], "run": "nowhere.cwl"}}},
    "graph with expressions": graph_expr,
    "bad step version": lambda v: {"cwlVersion": v, "class": "Workflow", "inputs": {}, "outputs": {},
                                   "steps": {"s": {"in": {}, "out": [], "run": dict(plain(v, 0), cwlVersion="v1.9")}}},
}


def several(item, r):
    rng = C.rng("several", item)
    d = os.path.join(C.scratch, "m%s" % item)
    os.makedirs(d + "/o")
    try:
        mode, inputs = rng.choice(MODES), []
        choices = sorted(BAD) if PLAIN not in mode else sorted(set(BAD) - {"graph with expressions"})
        bad = rng.sample(choices, rng.choice([0, 1, 1, 2, 3]))
        kinds = [rng.choice(sorted(GOOD)) for _ in range(rng.choice([1, 2, 3]))] + bad
        rng.shuffle(kinds)
        for n, k in enumerate(kinds):
            v = rng.choice(VERSIONS)
            p = "%s/%s%d.cwl" % (d, k.replace(" ", "_"), n)
            if k == "syntax error":
                with open(p, "w") as f:
                    f.write("cwlVersion: %s\nclass: [CommandLineTool\ninputs: }" % v)
            elif k in GOOD:
                write(p, GOOD[k](v, n), rng)
            elif k != "missing":
                write(p, BAD[k](v), rng)
            inputs.append((k, p, n))
        files = tree(d)
        info = {"item": item, "mode": mode, "kinds": kinds}
        rc, log, exc = normalize([*mode, d + "/o", *[p for _, p, _ in inputs]])
        r.case((kinds, mode, item))
        r.see("several documents")
        if exc is not None:
            r.violation("one-stops-others", error="%s: %s" % (type(exc).__name__, str(exc)[:600]), **info)
            return
        now = tree(d)
        if {k: v for k, v in now.items() if not k.startswith("o/")} != files:
            r.violation("original-modified", **info)
        if bad and not rc:
            r.violation("failure-not-reported", rc=rc, **info)
        elif not bad and rc:
            r.violation("success-not-reported", rc=rc, log=log.getvalue()[-1500:], **info)
        extra = {k for k in now if k.startswith("o/")} - {"o/" + os.path.basename(p) for _, p, _ in inputs}
        if extra:
            r.violation("written", found=sorted(extra), **info)
        for k, p, n in inputs:
            out = d + "/o/" + os.path.basename(p)
            if k in BAD:
                r.see("bad: " + k)
                if os.path.exists(out):
                    r.violation("bad-document-written", kind=k, **info)
                if os.path.basename(p) not in log.getvalue():
                    r.violation("bad-document-not-named", kind=k, log=log.getvalue()[-1500:], **info)
                continue
            if not os.path.exists(out):
                r.violation("lost-document", kind=k, log=log.getvalue()[-1500:], **info)
                continue
            r.see("good with others: " + k)
            if judge(r, out, mode, [{}, {}], dict(info, document=k)) is None:
                continue
            got, error = attempt("file://" + out + "#main" if k == "graph" else out, {"x%d" % n: "val"}, d)
            if error != "lost" and (error or got["out"]["text"] != "val\n"):
                r.violation("normalised-fails", error=error, got=got, kind=k, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drafts(r):
    """draft-3 tools (which cwltool does not run): what they print is known."""
    for n, (mode, args, want) in enumerate([
            ([], [{"valueFrom": "$(inputs.x + '!')"}], "val! a\n"), ([PLAIN], [{"valueFrom": "$(inputs.x + '!')"}], "val! a\n"),
            (["--etools"], [{"valueFrom": "$(inputs.x)"}], "val a\n"), ([PLAIN], ["q"], "q a\n")]):
        d = os.path.join(C.scratch, "draft%d" % n)
        os.makedirs(d + "/o")
        write(d + "/d3.cwl", {"cwlVersion": rng_version(n), "class": "CommandLineTool", "description": "A tool", "requirements": [dict(JS)],
                              "baseCommand": ["echo"], "arguments": args + ["a"], "stdout": "out.txt",
                              "inputs": [{"id": "#x", "type": "string"}, {"id": "#o", "type": ["null", {"type": "array", "items": "int"}]}],
                              "outputs": [{"id": "#out", "type": "File", "outputBinding": {"glob": "out.txt"}}]})
        files = tree(d)
        rc, log, exc = normalize([*mode, d + "/o", d + "/d3.cwl"])
        info = {"draft": n, "mode": mode}
        r.case(info)
        if exc is not None or rc:
            r.violation("refused", rc=rc, error=str(exc), log=log.getvalue()[-1500:], **info)
            continue
        if {k: v for k, v in tree(d).items() if not k.startswith("o/")} != files:
            r.violation("original-modified", **info)
        if sorted(os.listdir(d + "/o")) != ["d3.cwl"]:
            r.violation("written", found=os.listdir(d + "/o"), **info)
            continue
        if judge(r, d + "/o/d3.cwl", mode, [{}, {}], info) is None:
            continue
        got, error = attempt(d + "/o/d3.cwl", {"x": "val"}, d)
        r.see("draft-3")
        if error or got["out"]["text"] != want:
            r.violation("normalised-fails", error=error, got=got, want=want, **info)


def rng_version(n):
    return ["draft-3", "cwl:draft-3"][n % 2]


def commands(r):
    """The command, with its exit status, from another directory and with relative paths."""
    common.any_locale(r, "cwl_utils.normalizer", ["OUT", "doc.cwl"], os.path.join(C.scratch, "locale"))
    d = os.path.join(C.scratch, "cmd")
    os.makedirs(d + "/o")
    os.makedirs(d + "/docs")
    write(d + "/docs/plain.cwl", plain("v1.0", 1))
    write(d + "/docs/expr.cwl", with_expr("v1.1", 1))
    write(d + "/docs/bad.cwl", BAD["invalid"]("v1.0"))
    for args, ok in ((["docs/plain.cwl"], True), (["docs/expr.cwl", "docs/plain.cwl"], True), (["docs/bad.cwl"], False),
                     (["docs/bad.cwl", "docs/plain.cwl"], False), (["nothing.cwl", "docs/expr.cwl"], False)):
        p = subprocess.run([sys.executable, "-m", "cwl_utils.normalizer", "o", *args], cwd=d, env=dict(os.environ), capture_output=True,
                           text=True, timeout=300)
        r.see("commands")
        r.case(args)
        if (p.returncode == 0) != ok:
            r.violation("exit-code", args=args, got=p.returncode, stderr=p.stderr[-1500:])
        for a in args:
            o = d + "/o/" + os.path.basename(a)
            if os.path.exists(o) != (a[5:] in ("plain.cwl", "expr.cwl")):
                r.violation("written", args=args, found=os.listdir(d + "/o"))
            elif os.path.exists(o):
                os.remove(o)


def twins(r):
    """Documents of the same name in different directories have the same place to be written to."""
    for first, second in (("plain", "expr"), ("expr", "plain"), ("plain", "plain")):
        d = os.path.join(C.scratch, "twins_%s_%s" % (first, second))
        for n, k in ((1, first), (2, second)):
            os.makedirs("%s/%d" % (d, n))
            write("%s/%d/doc.cwl" % (d, n), GOOD[k]("v1.2", n))
        os.mkdir(d + "/o")
        rc, log, exc = normalize([d + "/o", d + "/1/doc.cwl", d + "/2/doc.cwl"])
        r.see("same name")
        text = open(d + "/o/doc.cwl", encoding="utf-8").read() if os.path.exists(d + "/o/doc.cwl") else ""
        if exc is not None or not rc or "x1" not in text or "x2" in text:
            r.violation("same-name", kinds=[first, second], rc=rc, error=str(exc), log=log.getvalue()[-800:], written=text[:500])


def body(c):
    X.node_path(c.scratch)
    n = scale(96, 2500)
    for name, minimum in (("documents", n * 9 // 10), ("compared", n * 6 // 10), ("several documents", 10), ("commands", 5), ("draft-3", 4),
                          ("wrapped", n // 8), ("older step", 1), ("with external", n // 20), ("expressions kept", 20),
                          *(("good with others: " + k, 3) for k in GOOD), *((v, n // 6) for v in VERSIONS)):
        c.need(name, minimum)
    c.add(common.pool_run(one, range(n), limit=300))
    c.add(common.pool_run(several, range(scale(20, 300)), limit=200))
    r = common.Result()
    commands(r)
    drafts(r)
    twins(r)
    c.add(r)


if __name__ == "__main__":
    common.main(C, body)
