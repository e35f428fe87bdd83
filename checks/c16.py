"""C16 expression refactoring: documents and what is left of them executed and compared."""
import contextlib, io, json, os, re, shutil, subprocess, sys
import common, exprdocs as X
from common import scale
from exprdocs import attempt, classes, read, tree, write
from cwl_utils import expression_refactor as ER
from cwl_utils.parser import load_document_by_uri

C = common.Check("C16", "one refactoring of a random tool, ExpressionTool or workflow (inline and external processes, sub-workflows, "
                 "scatter, when, pickValue, expressionLib, JavaScript in every place that is refactored), whose result is executed with "
                 "the same inputs as the original; distinct by document, switches and job; non-trivial = the document was refactored",
                 assumptions=["cwltool executes the documents (its JavaScript engine and staging are trusted)", "node is what \"nodejs\" runs"])
MODES = [[], [], ["--etools"], ["--etools"], ["--skip-some1"], ["--skip-some2"], ["--etools", "--skip-some1", "--skip-some2"]]
VERSIONS = ["v1.0", "v1.1", "v1.2"]
ALLOWED = {"--skip-some1": re.compile(r"/inputBinding/|/arguments"), "--skip-some2": re.compile(r"outputEval|/listing")}


def refactor(args):
    """(exit status, log, exception)"""
    import logging
    log = io.StringIO()
    h = logging.StreamHandler(log)
    ER._logger.removeHandler(ER.defaultStreamHandler)
    ER._logger.addHandler(h)
    old = ER._logger.level
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return ER.run(args), log, None
            except SystemExit as e:
                return e.code or 0, log, None
            except Exception as e:
                return None, log, e
    finally:
        ER._logger.removeHandler(h)
        ER._logger.addHandler(ER.defaultStreamHandler)
        ER._logger.setLevel(old)


def unexpected(saved, mode):
    return [(p, e) for p, e in X.left(saved) if not any(m in mode and a.search(p) for m, a in ALLOWED.items())]


def referred(doc, files):
    todo, found = [doc], []
    while todo:
        x = todo.pop()
        for v in x.values() if isinstance(x, dict) else x if isinstance(x, list) else ():
            if isinstance(v, str) and isinstance(x, dict) and v == x.get("run"):
                v = v.replace("../", "")
                if v in files and v not in found:
                    found.append(v)
                    todo.append(files[v])
            todo.append(v)
    return [files[f] for f in found]


def judge(r, path, out, rc, mode, docs, info, log):
    """The result of refactoring one document (docs: it and those it refers to), given alone."""
    text = json.dumps(docs)
    todo = [x for doc in docs for x in unexpected(doc, mode)]
    etools = any(c == "ExpressionTool" for c, _ in classes(docs))
    if rc == 7:
        r.see("unmodified")
        if os.path.exists(out):
            r.violation("unmodified-but-written", **info)
        if todo or (etools and "--etools" not in mode):
            r.violation("not-refactored", left=todo[:3], **info)
        return False
    if rc != 0:
        r.violation("refused", rc=rc, log=log.getvalue()[-2500:], **info)
        return False
    if "$(" not in text and "${" not in text and not etools:
        r.violation("modified-without-expressions", **info)
    if not os.path.exists(out):
        r.violation("file-name", found=os.listdir(os.path.dirname(out)), **info)
        return False
    try:
        saved = read(out)
    except Exception as e:
        r.violation("invalid", error=str(e)[:800], **info)
        return False
    if saved.get("cwlVersion") != docs[0]["cwlVersion"]:
        r.violation("version-changed", got=saved.get("cwlVersion"), **info)
    for h in sorted({x for doc in docs for x in re.findall(r"hint (?:CommandLineTool|Workflow) \d+", json.dumps(doc))}):
        if h not in json.dumps(saved):
            r.violation("hint-lost", hint=h, **info)
    rest = unexpected(saved, mode)
    if rest:
        r.violation("expressions-left", left=rest[:4], **info)
    if "--etools" not in mode:
        n = [x.get("id") for c, x in classes(saved) if c == "ExpressionTool"]
        if n:
            r.violation("ExpressionTools-left", ids=n[:4], **info)
    r.see("generated steps", sum(1 for c, x in classes(saved) if c == "ExpressionTool" or x.get("baseCommand") == ["nodejs", "expression.js"]))
    try:
        with common.quiet():
            load_document_by_uri(out)
    except Exception as e:
        r.violation("invalid", error=str(e)[:800], **info)
    return True


def one(item, r):
    rng = C.rng("random", item)
    d = os.path.join(C.scratch, "r%s" % item)
    os.makedirs(d + "/o")
    try:
        mode, version = rng.choice(MODES), rng.choice(VERSIONS)
        D = X.Docs(rng, version, "--etools" in mode)
        doc, env = D.document()
        name = rng.choice(["doc.cwl", "doc.cwl", "a-b.json", "tool.v1.yml", "é.cwl"])
        path, out = os.path.join(d, name), os.path.join(d, "o", name)
        write(path, doc, rng)
        X.write_texts(d)
        for f, x in D.files.items():
            write(os.path.join(d, f), x, rng)
        jobs = [D.job(env, d) for _ in range(scale(1, 2))]
        files = tree(d)
        info = {"item": item, "mode": mode, "doc": doc, "files": D.files}
        rc, log, exc = refactor([*mode, d + "/o", path])
        if exc is not None:
            common.crashed(exc, r, info)
            return
        r.see("documents")
        r.see("mode %s" % " ".join(mode))
        r.see(version)
        if {k: v for k, v in tree(d).items() if not k.startswith("o/")} != files:
            r.violation("original-modified", **info)
        done = judge(r, path, out, rc, mode, [doc, *referred(doc, D.files)], info, log)
        r.case((doc, mode, jobs), done, {"document": doc, "switches": mode, "job": jobs[0]} if len(json.dumps(doc)) < 3000 else None)
        if not done:
            return
        for k, n in D.seen.items():
            r.see("with " + k, n)
        for job in jobs:
            want, error = attempt(path, job, d)
            if error:
                r.see("original does not run")
                continue
            got, error = attempt(out, job, d)
            if error == "lost":
                continue
            r.see("compared")
            r.see("outputs compared", len(want))
            if error:
                r.violation("refactored-fails", error=error, job=job, **info)
            elif got != want:
                r.violation("outputs-differ", job=job, want={k: v for k, v in want.items() if got.get(k) != v},
                            got={k: v for k, v in got.items() if want.get(k) != v}, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- several documents

JS = {"class": "InlineJavascriptRequirement"}


def plain(version, n):
    return {"cwlVersion": version, "class": "CommandLineTool", "baseCommand": "echo", "inputs": {"x%d" % n: "string"},
            "outputs": {}, "arguments": ["a"]}


def with_expr(version, n):
    return dict(plain(version, n), requirements=[JS], arguments=["$(inputs.x%d + '%d')" % (n, n)], stdout="o%d.txt" % n,
                outputs={"out": {"type": "File", "outputBinding": {"glob": "o%d.txt" % n}}})


BAD = {
    "unsupported version": lambda v: dict(plain(v, 0), cwlVersion=["draft-3", "v1.9"][v == "v1.0"]),
    "no version": lambda v: {k: x for k, x in plain(v, 0).items() if k != "cwlVersion"},
    "invalid": lambda v: dict(plain(v, 0), arguments=[{"valueFrom": "a", "bogus": 1}]),
    "not CWL": lambda v: ["just", "a list"],
    "syntax error": None,
    "missing": None,
    "missing run": lambda v: {"cwlVersion": v, "class": "Workflow", "inputs": {}, "outputs": {}, "requirements": [JS],
                              "steps": {"s": {"in": {"x": {"valueFrom": "$(1+1)"}}, "out": [], "run": "nowhere.cwl"}}},
    "crossproduct": lambda v: {
        "cwlVersion": v, "class": "Workflow", "inputs": {"l": "string[]"}, "outputs": {},
        "requirements": [JS, {"class": "StepInputExpressionRequirement"}, {"class": "ScatterFeatureRequirement"}],
        "steps": {"s": {"in": {"a": "l", "b": "l", "c": {"source": "l", "valueFrom": "$(self + 1)"}}, "out": [], "scatter": ["a", "b"],
                        "scatterMethod": "flat_crossproduct", "run": {"class": "CommandLineTool", "baseCommand": "echo", "outputs": {},
                                                                      "inputs": {"a": "string", "b": "string", "c": "string"}}}}},
}


def several(item, r):
    rng = C.rng("several", item)
    d = os.path.join(C.scratch, "m%s" % item)
    os.makedirs(d + "/o")
    try:
        mode, inputs = rng.choice(MODES[:4]), []
        bad = rng.sample(sorted(BAD), rng.choice([0, 1, 1, 2]))
        kinds = ["plain"] * rng.choice([0, 1, 2]) + ["expr"] * rng.choice([1, 2]) + bad
        rng.shuffle(kinds)
        for n, k in enumerate(kinds):
            v = rng.choice(VERSIONS)
            p = "%s/%s%d.cwl" % (d, k.split()[0], n)
            if k == "syntax error":
                with open(p, "w") as f:
                    f.write("cwlVersion: %s\nclass: [CommandLineTool\ninputs: }" % v)
            elif k != "missing":
                write(p, {"plain": lambda v: plain(v, n), "expr": lambda v: with_expr(v, n)}.get(k, BAD.get(k))(v), rng)
            inputs.append((k, p, n))
        files = tree(d)
        info = {"item": item, "mode": mode, "kinds": kinds}
        rc, log, exc = refactor([*mode, d + "/o", *[p for _, p, _ in inputs]])
        r.case((kinds, mode, item))
        r.see("several documents")
        if exc is not None:
            r.violation("one-stops-others", error="%s: %s" % (type(exc).__name__, str(exc)[:600]), **info)
            return
        if {k: v for k, v in tree(d).items() if not k.startswith("o/")} != files:
            r.violation("original-modified", **info)
        one_only = len(kinds) == 1
        if bad and not rc:
            r.violation("failure-not-reported", rc=rc, **info)
        elif not bad and rc:
            r.violation("success-not-reported", rc=rc, log=log.getvalue()[-1500:], **info)
        for k, p, n in inputs:
            out = d + "/o/" + os.path.basename(p)
            if k in BAD:
                r.see("bad: " + k)
                if os.path.exists(out):
                    r.violation("bad-document-written", kind=k, **info)
                if os.path.basename(p) not in log.getvalue():
                    r.violation("bad-document-not-named", kind=k, log=log.getvalue()[-1500:], **info)
            elif not os.path.exists(out):
                r.violation("lost-document", kind=k, **info)
            elif k == "plain" and not one_only:
                r.see("copies")
                if open(out, "rb").read() != files[os.path.basename(p)]:
                    r.violation("unmodified-copy-differs", **info)
            elif k == "expr":
                r.see("refactored with others")
                got, error = attempt(out, {"x%d" % n: "val"}, d)
                if error != "lost" and (error or got["out"]["text"] != "val%d\n" % n):
                    r.violation("refactored-fails", error=error, got=got, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def commands(r):
    """The command, with its exit status."""
    common.any_locale(r, "cwl_utils.expression_refactor", ["OUT", "doc.cwl"], os.path.join(C.scratch, "locale"))
    d = os.path.join(C.scratch, "cmd")
    os.makedirs(d + "/o")
    write(d + "/plain.cwl", plain("v1.2", 1))
    write(d + "/expr.cwl", with_expr("v1.1", 1))
    write(d + "/bad.cwl", BAD["invalid"]("v1.0"))
    env = dict(os.environ)
    for args, want in ((["plain.cwl"], 7), (["expr.cwl"], 0), (["bad.cwl"], "error"), (["plain.cwl", "expr.cwl"], 0),
                       (["bad.cwl", "plain.cwl", "expr.cwl"], "error"), (["nothing.cwl"], "error")):
        p = subprocess.run([sys.executable, "-m", "cwl_utils.expression_refactor", "o", *args], cwd=d, env=env, capture_output=True,
                           text=True, timeout=300)
        r.see("commands")
        r.case(args)
        if (p.returncode in (0, 7)) if want == "error" else (p.returncode != want):
            r.violation("exit-code", args=args, expected=want, got=p.returncode, stderr=p.stderr[-1500:])


def twins(r):
    """Documents of the same name in different directories have the same place to be written to."""
    for first, second in (("plain", "expr"), ("expr", "plain"), ("expr", "expr")):
        d = os.path.join(C.scratch, "twins_%s_%s" % (first, second))
        for n, k in ((1, first), (2, second)):
            os.makedirs("%s/%d" % (d, n))
            write("%s/%d/doc.cwl" % (d, n), {"plain": plain, "expr": with_expr}[k]("v1.2", n))
        os.mkdir(d + "/o")
        rc, log, exc = refactor([d + "/o", d + "/1/doc.cwl", d + "/2/doc.cwl"])
        r.see("same name")
        text = open(d + "/o/doc.cwl", encoding="utf-8").read() if os.path.exists(d + "/o/doc.cwl") else ""
        if exc is not None or not rc or "x1" not in text or "x2" in text:
            r.violation("same-name", kinds=[first, second], rc=rc, error=str(exc), log=log.getvalue()[-800:], written=text[:500])


PICKABLE = {"string": ["", "0", "text", "null"], "int": [0, 1, -3], "boolean": [False, True], "double": [0.0, 2.5],
            "string[]": [[], [""], ["a", "b"]]}


def picks(item, r):
    """pickValue: what is picked from null and values that JavaScript takes for false is known."""
    k, how, nested = item
    rng = C.rng("picks", item)
    t = rng.choice(sorted(PICKABLE))
    d = os.path.join(C.scratch, "pick%s_%s_%d" % (k, how, nested))
    os.makedirs(d + "/o")
    try:
        array = {"type": "array", "items": {"type": "array", "items": "string"}} if t == "string[]" else t + "[]"
        names = ["a", "b", "c"][:rng.choice([2, 3])]
        opt = ["null", {"type": "array", "items": "string"}] if t == "string[]" else t + "?"
        out = {"type": array if how == "all_non_null" else t, "outputSource": names, "pickValue": how}
        doc = {"cwlVersion": "v1.2", "class": "Workflow", "requirements": [{"class": "MultipleInputFeatureRequirement"}],
               "inputs": {n: {"type": opt} for n in names}, "outputs": {"o": out}, "steps": {}}
        if nested:
            del doc["cwlVersion"]
            doc = {"cwlVersion": "v1.2", "class": "Workflow", "requirements": [{"class": "SubworkflowFeatureRequirement"}],
                   "inputs": {n: {"type": opt} for n in names}, "outputs": {"o": {"type": out["type"], "outputSource": "s/o"}},
                   "steps": {"s": {"run": doc, "in": {n: n for n in names}, "out": ["o"]}}}
        write(d + "/doc.cwl", doc)
        mode = rng.choice([[], ["--etools"]])
        rc, log, exc = refactor([*mode, d + "/o", d + "/doc.cwl"])
        info = dict(item=item, mode=mode, doc=doc)
        r.case(doc)
        if exc is not None or rc:
            r.violation("refused", rc=rc, error=str(exc), log=log.getvalue()[-1500:], **info)
            return
        for n in range(2):
            job = {n: rng.choice(PICKABLE[t] * 2 + [None] * len(PICKABLE[t])) for n in names}
            if how == "the_only_non_null" and rng.random() < 0.7:
                job = {n: v if n == names[-1] else None for n, v in job.items()}
            values = [v for v in job.values() if v is not None]
            fails = how != "all_non_null" and (not values or (how == "the_only_non_null" and len(values) > 1))
            got, error = attempt(d + "/o/doc.cwl", job, d)
            r.see("picked " + how)
            if fails:
                r.see("nothing to pick")
                if not error:
                    r.violation("picked-wrongly", job=job, want="failure", got=got, **info)
            elif error or got != {"o": values if how == "all_non_null" else values[0]}:
                r.violation("picked-wrongly", job=job, got=got, error=error, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- known findings

def tool(v, **k):
    t = {"cwlVersion": v, "class": "CommandLineTool", "requirements": [JS], "baseCommand": "echo",
         "inputs": {"x": "string", "n": "int", "f": "File"}, "stdout": "out.txt",
         "outputs": {"out": {"type": "File", "outputBinding": {"glob": "out.txt"}}}}
    t.update(k)
    return t


def wf(v, step, **k):
    w = {"cwlVersion": v, "class": "Workflow", "requirements": [JS, {"class": "StepInputExpressionRequirement"}],
         "inputs": {"x": "string", "n": "int", "f": "File"}, "outputs": {}, "steps": {"s": step}}
    w.update(k)
    return w


def renamed(v):
    return wf(v, {}, inputs={"a-b": "string", "f": "File", "n": "int", "x": "string"}, steps={
        "a": {"in": {"y": "a-b", "x": {"source": "x", "valueFrom": "$(self + 1)"}}, "out": ["out"],
              "run": {"class": "CommandLineTool", "baseCommand": "echo", "inputs": {"x": "string", "y": "string"}, "arguments": ["$(inputs.x)"],
                      "stdout": "out.txt", "outputs": {"out": {"type": "File", "outputBinding": {"glob": "out.txt"}}}}}},
        outputs={"out": {"type": "File", "outputSource": "a/out"}})


PROBES = {  # key: (document, modes, what to expect of the defect)
    "staged-path": (lambda v: tool(v, baseCommand="cat", arguments=["$(inputs.f.path + '')"]), [[], ["--etools"]], VERSIONS, "fails"),
    "staged-name": (lambda v: tool(v, requirements=[JS, {"class": "InitialWorkDirRequirement", "listing": [
        {"entryname": "renamed", "entry": "$(inputs.f)"}]}], arguments=["$(inputs.f.basename + '!')"]), [[], ["--etools"]], VERSIONS, "differs"),
    "runtime-in-expression": (lambda v: tool(v, requirements=[JS, {"class": "ResourceRequirement", "coresMin": 2}],
                                             arguments=["$(runtime.cores + 1)"]), [[], ["--etools"]], VERSIONS, "differs"),
    "outputEval-loadContents-etools": (lambda v: tool(v, arguments=["hi"], outputs={"out": {"type": "string", "outputBinding": {
        "glob": "out.txt", "loadContents": True, "outputEval": "$(self[0].contents + '!')"}}}), [["--etools"]], ["v1.1", "v1.2"], "fails"),
    "stdin-expression-left": (lambda v: tool(v, baseCommand="cat", arguments=["-", "$('/dev/' + 'null')"], stdin="$(inputs.f.path + '')"),
                              [[], ["--etools"]], VERSIONS, "left"),
    "relative-source": (renamed, [[], ["--etools"]], VERSIONS, "fails"),
}


def probe(item, r):
    key, version, mode = item
    make, _, _, symptom = PROBES[key]
    d = os.path.join(C.scratch, "p_%s_%s_%d" % (key, version, len(mode)))
    os.makedirs(d + "/o")
    try:
        path = d + "/doc.cwl"
        doc = make(version)
        write(path, doc)
        with open(d + "/in.txt", "w") as f:
            f.write("text\n")
        job = {"x": "xyz", "n": 5, "f": {"class": "File", "location": "file://" + d + "/in.txt"}}
        if key == "relative-source":
            job["a-b"] = "q"
        rc, log, exc = refactor([*mode, d + "/o", path])
        r.case(item)
        r.see("probes")
        info = dict(probe=key, version=version, mode=mode)
        if exc is not None or rc:
            r.violation("probe-" + key, rc=rc, error=str(exc), log=log.getvalue()[-1500:], **info)
            return
        want, error = attempt(path, job, d)
        if error:
            r.inconclusive("the original of probe %s does not run: %s" % (key, error))
            return
        rest = unexpected(read(d + "/o/doc.cwl"), mode)
        got, error = attempt(d + "/o/doc.cwl", job, d)
        if error == "lost":
            return
        state = "fails" if error else "differs" if got != want else "left" if rest else "ok"
        if state == symptom:
            r.violation(key, error=error, want=want, got=got, left=rest, **info)
        elif state != "ok":
            r.violation("probe-" + key, state=state, error=error, want=want, got=got, left=rest, **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    X.node_path(c.scratch)
    n = scale(84, 2500)
    probes = [(k, v, m) for k, (_, modes, versions, _) in PROBES.items() for v in versions for m in modes]
    if not common.THOROUGH:
        rng = c.rng("probes")
        probes = [(k, rng.choice(versions), rng.choice(modes)) for k, (_, modes, versions, _) in PROBES.items()]
    for name, minimum in (("documents", n * 9 // 10), ("compared", n * 6 // 10), ("generated steps", n * 2), ("unmodified", 1),
                          ("several documents", 10), ("copies", 3), ("refactored with others", 8), ("commands", 6), ("probes", len(PROBES))):
        c.need(name, minimum)
    for f in ("valueFrom", "arguments", "outputEval", "inputBinding", "EnvVar", "InitialWorkDir", "scatter", "ExpressionTool", "stdout", "glob"):
        c.need("with " + f, 5)
    for f in ("when", "sub-workflow", "external", "Resource"):
        c.need("with " + f, 2)
    c.add(common.pool_run(probe, probes, limit=200))
    c.add(common.pool_run(one, range(n), limit=300))
    c.add(common.pool_run(several, range(scale(16, 300)), limit=200))
    c.add(common.pool_run(picks, [(k, h, w) for k in range(scale(4, 40)) for h in ("first_non_null", "the_only_non_null", "all_non_null")
                                  for w in (False, True)], limit=200))
    for h in ("first_non_null", "the_only_non_null", "all_non_null"):
        c.need("picked " + h, 10)
    r = common.Result()
    commands(r)
    twins(r)
    c.add(r)


if __name__ == "__main__":
    common.main(C, body)
