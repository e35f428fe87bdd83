"""C03 shorthand spellings: the same document spelled out and abbreviated must load to equal objects."""
import json, os, shutil, tempfile
import common, gen, objdump, salad_ref, docs
from common import scale

C = common.Check("C03", "random valid document spelled out, against random rewritings of it with CWL shorthands (maps, "
                 "short forms, type and secondaryFiles suffixes, $import, $include, JSON/YAML styles); both loaded and "
                 "compared object by object, the short one also with the reference reader; non-trivial = at least one "
                 "shorthand was used; distinct by the texts of all files of the short spelling")


def chunk(item, r):
    version, seed, n = item
    rng = C.rng("chunk", version, seed)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.2, 0.4, 0.7]))
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    for i in range(n):
        fname = rng.choice(["a.cwl", "sub/b.cwl"])
        if fname.startswith("sub/"):
            docs.setup(os.path.join(d, "sub"))
        doc = gen.document(g)
        path = gen.write_doc(d, fname, doc, rng)
        try:
            plain = docs.canon(objdump.dump(docs.load(path)))
        except Exception as e:
            r.see("plain_not_loaded")
            continue
        for _ in range(3):
            files = {}
            sg = gen.Sugar(rng, version, rng.choice([0.3, 0.7, 1.0]), rng.choice([0, 0, 0.3]), files)
            short = sg.proc(doc)
            base = os.path.dirname(fname)
            path = gen.write_doc(d, fname, short, rng, {os.path.join(base, f): c for f, c in files.items()})
            try:
                got = docs.canon(objdump.dump(docs.load(path)))
            except Exception as e:
                try:
                    why = salad_ref.accepts(path, version)
                except Exception:
                    why = "?"
                if why is None:
                    r.violation("short-spelling-not-loaded", version=version, doc=doc, short=short, files=files,
                                error=str(e)[-1500:])
                else:
                    r.see("reference_rejects_short")
                continue
            df = objdump.diff(plain, got)
            r.case([version, short, files], bool(sg.used), {"version": version, "short": short, "files": files})
            for u in sg.used:
                r.see("used_" + u.split(":")[0])
            if files:
                r.see("with_imports")
            if df:
                r.violation("spellings-differ", version=version, doc=doc, short=short, files=files, diff=df)
                continue
            r.see("pairs_compared")
            try:
                ref = docs.canon(salad_ref.resolve(path, version))
            except Exception:
                r.see("reference_rejects_short")
                continue
            df = objdump.diff(docs.unordered(ref), docs.unordered(got))
            r.see("reference_compared")
            if df:
                r.violation("differs-from-reference", version=version, doc=doc, short=short, files=files, diff=df)
    shutil.rmtree(d)


def short_ids(x):
    if isinstance(x, dict):
        return {k: short_ids(v) for k, v in x.items()}
    if isinstance(x, list):
        return [short_ids(v) for v in x]
    return x.split("#")[-1].split("/")[-1] if isinstance(x, str) and "#" in x else x


def fixed(item, r):
    """Pairs whose equality is written out in the CWL specification."""
    version = item
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    p = os.path.join(d, "f.cwl")

    def view(doc, files=None):
        gen.write_doc(d, "f.cwl", doc, None, files or {})
        return docs.canon(objdump.dump(docs.load(p)))

    def tool(**kw):
        return dict({"cwlVersion": version, "class": "CommandLineTool", "baseCommand": "x", "inputs": [],
                     "outputs": []}, **kw)

    arr = lambda t: {"type": "array", "items": t}
    pairs = []
    for t in ("int", "string", "File", "Directory", "boolean", "long", "float", "double", "Any"):
        for short, full in ((t, t), (t + "?", ["null", t]), (t + "[]", arr(t)), (t + "[]?", ["null", arr(t)])):
            pairs.append((tool(inputs={"a": short}), tool(inputs=[{"id": "a", "type": full}])))
            pairs.append((tool(inputs={"a": {"type": short, "doc": "d"}}), tool(inputs=[{"id": "a", "doc": "d", "type": full}])))
            if not short.endswith("?"):
                pairs.append((tool(outputs={"a": {"type": ["null", short]}}), tool(outputs=[{"id": "a", "type": ["null", full]}])))
            pairs.append((tool(inputs={"a": {"type": {"type": "record", "name": "r", "fields": {"f": short}}}}),
                          tool(inputs=[{"id": "a", "type": {"type": "record", "name": "r",
                                                            "fields": [{"name": "f", "type": full}]}}])))
    if version != "v1.0":
        for s, f in ((".bai", {"pattern": ".bai"}), ("^.bai?", {"pattern": "^.bai", "required": False}),
                     (["^^.x", ".y?"], [{"pattern": "^^.x"}, {"pattern": ".y", "required": False}])):
            pairs.append((tool(inputs=[{"id": "a", "type": "File", "secondaryFiles": s}]),
                          tool(inputs=[{"id": "a", "type": "File", "secondaryFiles": f if isinstance(f, list) else [f]}])))
    pairs += [
        (tool(requirements={"ShellCommandRequirement": {}, "DockerRequirement": {"dockerPull": "x"}}),
         tool(requirements=[{"class": "ShellCommandRequirement"}, {"class": "DockerRequirement", "dockerPull": "x"}])),
        (tool(hints={"ResourceRequirement": {"coresMin": 2}}), tool(hints=[{"class": "ResourceRequirement", "coresMin": 2}])),
        (tool(requirements={"EnvVarRequirement": {"envDef": {"B": "1", "A": {"envValue": "2"}}}}),
         tool(requirements=[{"class": "EnvVarRequirement", "envDef": [{"envName": "B", "envValue": "1"},
                                                                      {"envName": "A", "envValue": "2"}]}])),
        (tool(hints={"SoftwareRequirement": {"packages": {"b": ["http://s/1"], "a": {"version": ["1"]}}}}),
         tool(hints=[{"class": "SoftwareRequirement", "packages": [{"package": "b", "specs": ["http://s/1"]},
                                                                   {"package": "a", "version": ["1"]}]}])),
    ]
    wf = lambda steps, **kw: dict({"cwlVersion": version, "class": "Workflow", "inputs": [{"id": "a", "type": "int"}],
                                   "outputs": [{"id": "z", "type": "int", "outputSource": "s2/o"}], "steps": steps}, **kw)
    sub = {"class": "CommandLineTool", "baseCommand": "x", "inputs": [{"id": "i", "type": "int"}],
           "outputs": [{"id": "o", "type": "int"}]}
    full = wf([{"id": "s2", "in": [{"id": "i", "source": "a"}], "out": ["o"], "run": sub},
               {"id": "s1", "in": [{"id": "i", "source": ["a", "s2/o"], "linkMerge": "merge_nested"}], "out": ["o"],
                "run": dict(sub), "scatter": ["i"]}])
    pairs += [
        (wf({"s2": {"in": {"i": "a"}, "out": ["o"], "run": sub},
             "s1": {"in": {"i": {"source": ["a", "s2/o"], "linkMerge": "merge_nested"}}, "out": ["o"], "run": dict(sub),
                    "scatter": ["i"]}}), full),
        (wf({"s2": {"in": [{"id": "i", "source": "a"}], "out": ["o"], "run": dict(sub, inputs={"i": "int"})},
             "s1": {"in": {"i": {"source": ["a", "s2/o"], "linkMerge": "merge_nested"}}, "out": ["o"],
                    "run": dict(sub, outputs={"o": {"type": "int"}}), "scatter": ["i"]}},
            inputs={"a": "int"}, outputs={"z": {"type": "int", "outputSource": "s2/o"}}), full),
    ]
    for short, plain in pairs:
        try:
            a, b = view(short), view(plain)
        except Exception as e:
            r.violation("fixed-pair-not-loaded", version=version, short=short, full=plain, error=str(e)[-800:])
            continue
        df = objdump.diff(b, a)
        r.case([short, plain])
        r.see("fixed_pairs")
        if df:
            r.violation("fixed-pair-differs", version=version, short=short, full=plain, diff=df)
    # types, expressions and text taken from other files; names defined there are scoped to that file
    rec = {"type": "record", "name": "r", "fields": [{"name": "f", "type": "string"}, {"name": "g", "type": ["null", "int"]}]}
    imports = [
        (tool(inputs=[{"id": "a", "type": {"$import": "sub/t.yml"}}]), {"sub/t.yml": rec},
         tool(inputs=[{"id": "a", "type": rec}])),
        (tool(inputs={"a": {"type": {"$import": "sub/t.yml"}}}), {"sub/t.yml": {"type": "record", "name": "q", "fields":
         {"h": {"type": {"$import": "deep/u.json"}}}}, "sub/deep/u.json": rec},
         tool(inputs=[{"id": "a", "type": {"type": "record", "name": "q", "fields": [{"name": "h", "type": rec}]}}])),
        (tool(requirements=[{"$import": "sub/req.yml"}]), {"sub/req.yml": {"class": "DockerRequirement", "dockerFile":
         {"$include": "deep/Dockerfile"}, "dockerImageId": "x"}, "sub/deep/Dockerfile": "FROM x\n# ü\n\tend"},
         tool(requirements=[{"class": "DockerRequirement", "dockerFile": "FROM x\n# ü\n\tend", "dockerImageId": "x"}])),
        (tool(requirements={"InlineJavascriptRequirement": {"expressionLib": [{"$include": "sub/lib.js"}, "var b;"]}}),
         {"sub/lib.js": "function f() { return 'a\\n'; }\n"},
         tool(requirements=[{"class": "InlineJavascriptRequirement", "expressionLib":
              ["function f() { return 'a\\n'; }\n", "var b;"]}])),
        (tool(requirements=[{"class": "SchemaDefRequirement", "types": [{"$import": "sub/t.yml"}]}]), {"sub/t.yml": rec},
         tool(requirements=[{"class": "SchemaDefRequirement", "types": [rec]}])),
    ]
    for short, files, plain in imports:
        try:
            a, b = view(short, files), view(plain)
        except Exception as e:
            r.violation("import-not-loaded", version=version, short=short, files=files, error=str(e)[-800:])
            continue
        df = objdump.diff(short_ids(b), short_ids(a))
        r.case([short, plain])
        r.see("fixed_pairs")
        if df:
            r.violation("import-differs", version=version, short=short, files=files, diff=df)
    # $import of the process of a step equals run: file
    gen.write_doc(d, "sub/t.cwl", dict(sub, cwlVersion=version))
    a = docs.canon(objdump.dump(docs.load(gen.write_doc(d, "f.cwl", wf([
        {"id": "s2", "in": [{"id": "i", "source": "a"}], "out": ["o"], "run": {"$import": "sub/t.cwl"}}])))))
    t = docs.canon(objdump.dump(docs.load(os.path.join(d, "sub/t.cwl"))))
    df = objdump.diff(short_ids(t), short_ids(a["steps"][0]["run"]))
    df = [x for x in df if not x.startswith("/cwlVersion") and not x.startswith("/id")]
    r.see("fixed_pairs")
    if df:
        r.violation("run-import-differs", version=version, diff=df)
    shutil.rmtree(d)


def body(C):
    for v in salad_ref.VERSIONS:
        salad_ref.schema(v)
    n = scale(16, 200)
    C.add(common.pool_run(chunk, [(v, i, 6) for i in range(n) for v in salad_ref.VERSIONS]))
    C.add(common.pool_run(fixed, salad_ref.VERSIONS))
    C.need("pairs_compared", n * 3 * 6 * 2)
    C.need("reference_compared", n * 3 * 6 * 2)
    C.need("with_imports", n * 8)
    C.need("fixed_pairs", 300)


common.main(C, body)
