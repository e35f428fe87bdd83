"""C01 load/save round trip, watched against an independent reader (schema-salad + CWL metaschema)."""
import json, os, random, re, shutil, tempfile
import common, gen, objdump, salad_ref, docs
from common import scale
from cwl_utils.parser import load_document_by_uri, load_document_by_string, save

C = common.Check("C01", "random documents from the CWL metaschema (class x field x type alternative, all three "
                 "versions), each loaded, compared with the reference reader, saved (relative and absolute "
                 "URIs), re-read by the reference reader, reloaded and saved again; non-trivial = accepted by the "
                 "reference reader and at least 6 fields; distinct by document text")


def norm_saved(x):
    return objdump.canon(short_symbols(salad_ref.plain(x)), "", docs.NS)


def short_symbols(x):
    """The symbols of an anonymous enum may be spelled in full or in short; both mean the same."""
    if isinstance(x, dict):
        return {k: [re.split("[/#]", y)[-1] for y in v] if k == "symbols" and isinstance(v, list)
                and all(isinstance(y, str) for y in v) else short_symbols(v) for k, v in x.items()}
    return [short_symbols(v) for v in x] if isinstance(x, list) else x


def one(g, rng, d, r, packed):
    version = g.version
    if packed:
        doc, names = docs.packed(g, rng)
    else:
        doc = gen.document(g, top_id="#main" if rng.random() < 0.2 else None)
        if rng.random() < 0.15:
            doc["$schemas"] = ["ont.ttl"]
    text = common.jdump(doc)
    path = gen.write_doc(d, "doc%d.cwl" % rng.randrange(10 ** 9), doc, rng)
    try:
        try:
            raw = salad_ref.resolve(path, version)
        except Exception as e:
            r.see("reference_rejected")
            return
        try:
            o = docs.load(path, load_all=packed)
        except Exception as e:
            r.violation("load-raises", version=version, doc=doc, error="%s: %s" % (type(e).__name__, str(e)[-1500:]))
            return
        if packed:
            ref = {x["id"]: docs.canon(x) for x in (raw if isinstance(raw, list) else raw["$graph"])}
            got = {x.id: docs.canon(objdump.dump(x)) for x in o}
            for v in got.values():
                v.pop("cwlVersion", None)
            for v in ref.values():
                v.pop("cwlVersion", None)
            order = [x["id"] for x in (raw if isinstance(raw, list) else raw["$graph"])]
            if order != [x.id for x in o]:
                r.violation("graph-order", version=version, doc=doc, expected=order, got=[x.id for x in o])
        else:
            ref, got = docs.canon(raw), docs.canon(objdump.dump(o))
        df = objdump.diff(ref, got)
        if df:
            r.violation("load-differs", version=version, doc=doc, diff=df)
            return
        r.see("loads_compared")
        r.case(text, len(text) > 150, sample={"version": version, "doc": doc})
        for rec, fn, alt in g.used:
            r.cov.add((version, rec, fn))
        g.used.clear()
        if packed:
            s = save(o, relative_uris=False)
            if s.get("cwlVersion") != version or [x["id"] for x in s["$graph"]] != order:
                r.violation("save-graph", version=version, doc=doc, saved=s)
                return
            if any("$namespaces" in x for x in s["$graph"]):
                # known limitation probed separately; move the directive to where CWL wants it
                for x in s["$graph"]:
                    s.setdefault("$namespaces", x.pop("$namespaces", None))
            back(r, path, version, doc, s, ref, True, o)
            return
        uri = o.loadingOptions.fileuri
        for label, kw in (("relative", {}), ("absolute", {"relative_uris": False}),
                          ("relative-to-doc", {"base_url": uri})):
            s = save(o, **kw)
            s2 = o.save(top=True, **({"base_url": "", "relative_uris": True} | kw))
            if norm_saved(s) != norm_saved(s2):
                r.violation("save-entry-points-differ", version=version, doc=doc, a=s, b=s2)
            if s.get("cwlVersion") != version:
                r.violation("saved-version", version=version, doc=doc, saved=s.get("cwlVersion"))
            for key in ("$namespaces",):
                if s.get(key) != doc.get(key):
                    r.violation("saved-" + key, version=version, doc=doc, saved=s.get(key))
            if [os.path.basename(x) for x in s.get("$schemas", [])] != doc.get("$schemas", []):
                r.violation("saved-$schemas", version=version, doc=doc, saved=s.get("$schemas"))
            try:
                json.dumps(s)
            except TypeError as e:
                r.violation("saved-not-plain-data", version=version, doc=doc, error=str(e))
                return
            back(r, path, version, doc, s, ref, False, o, label, kw)
    finally:
        os.unlink(path)


def fixed_point(r, version, doc, o, o2, packed, label, kw, path):
    """Loading what was saved, and saving and loading that again, gives objects equal to the first."""
    def view(x):
        return [docs.canon(objdump.dump(y)) for y in x] if packed else docs.canon(objdump.dump(x))
    first = view(o)
    df = objdump.diff(first, view(o2))
    if df:
        r.violation("save-not-a-fixed-point", mode=label, version=version, doc=doc, diff=df)
        return
    if label != "absolute":
        return
    s3 = save(o2, **({"relative_uris": False} if kw is None else kw))
    if packed:
        for x in s3["$graph"]:
            ns = x.pop("$namespaces", None)
            if ns:
                s3.setdefault("$namespaces", ns)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(s3, f, ensure_ascii=False)
    try:
        df = objdump.diff(first, view(docs.load(path, load_all=packed)))
    except Exception as e:
        df = [str(e)[-1000:]]
    if df:
        r.violation("second-save-not-a-fixed-point", mode=label, version=version, doc=doc, diff=df)


def back(r, path, version, doc, s, ref, packed, o, label="absolute", kw=None):
    text = json.dumps(s, ensure_ascii=False)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        raw2 = salad_ref.resolve(path, version)
    except Exception as e:
        r.violation("saved-document-invalid", mode=label, version=version, doc=doc, saved=s, error=str(e)[-1500:])
        return
    if packed:
        ref2 = {x["id"]: docs.canon(x) for x in (raw2 if isinstance(raw2, list) else raw2["$graph"])}
        for v in ref2.values():
            v.pop("cwlVersion", None)
    else:
        ref2 = docs.canon(raw2)
    df = objdump.diff(ref, ref2)
    if df:
        r.violation("saved-document-differs", mode=label, version=version, doc=doc, saved=s, diff=df)
        return
    r.see("saves_compared")
    try:
        o2 = docs.load(path, load_all=packed)
    except Exception as e:
        r.violation("reload-raises", mode=label, version=version, doc=doc, saved=s, error=str(e)[-1500:])
        return
    if label != "absolute" and ("id" in doc or any(isinstance(t.get("run"), dict) for t in doc.get("steps", []))):
        return      # relative spelling of scoped references: known finding, probed below
    fixed_point(r, version, doc, o, o2, packed, label, kw, path)
    r.see("fixed_points_compared")


def chunk(item, r):
    version, seed, n = item
    rng = C.rng("chunk", version, seed)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.2, 0.4, 0.7]))
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    for i in range(n):
        one(g, rng, d, r, packed=rng.random() < 0.15)
    shutil.rmtree(d)


EXTS = {
    "Secrets": [{"secrets": ["a"]}, {"secrets": []}],
    "MPIRequirement": [{"processes": 0}, {"processes": 4}, {"processes": "$(inputs.n)"}],
    "CUDARequirement": [{"cudaVersionMin": "11.0", "cudaComputeCapability": "3.0"},
                        {"cudaVersionMin": "", "cudaComputeCapability": ["3.0", "4.0"], "cudaDeviceCountMin": 0,
                         "cudaDeviceCountMax": 8},
                        {"cudaVersionMin": "11", "cudaComputeCapability": "3", "cudaDeviceCountMin": "$(inputs.n)",
                         "cudaDeviceCountMax": "${return 2;}"}],
    "ShmSize": [{"shmSize": "64m"}, {"shmSize": ""}],
}


def extensions(item, r):
    """cwltool extension requirements, which the CWL metaschema does not know."""
    version, place = item
    d = tempfile.mkdtemp(dir=C.scratch)
    path = os.path.join(d, "x.cwl")
    for cls, variants in EXTS.items():
        for var in variants + [dict(v, **{"ex:note": {"a": [1, "b"]}}) for v in variants]:
            doc = {"cwlVersion": version, "class": "CommandLineTool",
                   "$namespaces": {"cwltool": "http://commonwl.org/cwltool#", "ex": "http://example.org/"},
                   "inputs": [{"id": "a", "type": "string"}], "outputs": [], "baseCommand": "echo",
                   place: [dict({"class": "cwltool:" + cls}, **var)]}
            with open(path, "w") as f:
                json.dump(doc, f)
            try:
                o = docs.load(path)
            except Exception as e:
                if cls == "ShmSize" and version != "v1.2" and place == "requirements" and False:
                    continue
                r.violation("extension-load", version=version, doc=doc, error=str(e)[-800:])
                continue
            s = save(o)
            want = norm_saved(doc)
            got = norm_saved({k: v for k, v in s.items() if k != "id"})
            df = objdump.diff(want, got)
            if df:
                r.violation("extension-save", version=version, doc=doc, diff=df)
            r.case(doc)
            r.see("extension_requirements")
            with open(path, "w") as f:
                json.dump(s, f)
            df = objdump.diff(norm_saved(s), norm_saved(save(docs.load(path))))
            if df:
                r.violation("extension-fixed-point", version=version, doc=doc, diff=df)
    shutil.rmtree(d)


# ------------------------------------------------------------------ deterministic probes of known findings
def flat(x):
    if isinstance(x, list):
        out = []
        for v in x:
            v = flat(v)
            out.extend(v) if isinstance(v, list) else out.append(v)
        return out
    if isinstance(x, dict):
        return {k: flat(v) for k, v in x.items()}
    return x


def probes(r):
    d = tempfile.mkdtemp(dir=C.scratch)
    for version in salad_ref.VERSIONS:
        p = os.path.join(d, "p.cwl")
        for val in ([[1, 2], [3]], [[], 1]):
            doc = {"cwlVersion": version, "class": "ExpressionTool", "expression": "$(null)", "outputs": [],
                   "inputs": [{"id": "a", "type": "Any", "default": val}]}
            json.dump(doc, open(p, "w"))
            got = objdump.dump(docs.load(p)).get("inputs")[0].get("default")
            r.see("nested_list_defaults")
            if got == flat(val):
                r.violation("nested-list-default-flattened", version=version, default=val, got=got)
            elif got != val:
                r.violation("nested-list-default", version=version, default=val, got=got)
        doc = {"cwlVersion": version, "$graph": [
            {"id": "main", "class": "Workflow", "inputs": [{"id": "a", "type": "File"}], "outputs": [],
             "steps": [{"id": "s", "in": [{"id": "x", "source": "a"}], "out": [], "run": "#t"}]},
            {"id": "t", "class": "CommandLineTool", "inputs": [{"id": "x", "type": "File"}], "outputs": [],
             "baseCommand": "echo"}]}
        json.dump(doc, open(p, "w"))
        st = save(docs.load(p, load_all=True))["$graph"][0]["steps"][0]
        r.see("packed_relative_saves")
        if st["run"] == "t" and st["in"][0]["source"] == "main/a":
            r.violation("packed-relative-save", version=version, step=st)
        elif st["run"] != "#t" or st["in"][0]["source"] not in ("a", "#main/a"):
            r.violation("packed-relative-save-other", version=version, step=st)
        doc["$namespaces"] = {"ex": "http://e.com/"}
        json.dump(doc, open(p, "w"))
        s = save(docs.load(p, load_all=True), relative_uris=False)
        json.dump(s, open(p, "w"))
        r.see("packed_namespaces_saves")
        try:
            docs.load(p, load_all=True)
        except Exception as e:
            if all("$namespaces" in x for x in s["$graph"]) and "$namespaces" not in s:
                r.violation("packed-namespaces-per-process", version=version, saved=s)
            else:
                r.violation("packed-namespaces-other", version=version, saved=s, error=str(e)[-500:])
        doc = {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [],
               "requirements": [{"class": "SubworkflowFeatureRequirement"}],
               "steps": [{"id": "s", "in": [], "out": [],
                          "run": {"id": "inner", "class": "CommandLineTool", "inputs": [], "outputs": [],
                                  "baseCommand": "x"}}]}
        json.dump(doc, open(p, "w"))
        o = docs.load(p)
        id1, s1 = o.steps[0].run.id, save(o)
        json.dump(s1, open(p, "w"))
        o2 = docs.load(p)
        id2 = o2.steps[0].run.id
        r.see("inline_run_ids")
        if id1 != id2:
            if s1["steps"][0]["run"]["id"] == "run/inner" and id1.endswith("#s/run/inner") \
                    and id2.endswith("#s/run/run/inner"):
                r.violation("inline-run-id-grows", version=version, first=id1, second=id2)
            else:
                r.violation("inline-run-id", version=version, first=id1, second=id2)


def nested_scope_probe(r):
    """Relative spelling of a source inside an embedded sub-workflow."""
    d = tempfile.mkdtemp(dir=C.scratch)
    p = os.path.join(d, "p.cwl")
    for version in salad_ref.VERSIONS:
        doc = {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [],
               "requirements": [{"class": "SubworkflowFeatureRequirement"}],
               "steps": [{"id": "s", "in": [], "out": [], "run": {
                   "class": "Workflow", "inputs": [{"id": "x", "type": "int"}],
                   "outputs": [{"id": "o", "type": "int", "outputSource": "x"}], "steps": []}}]}
        json.dump(doc, open(p, "w"))
        o = docs.load(p)
        a = o.steps[0].run.outputs[0].outputSource
        json.dump(save(o), open(p, "w"))
        b = docs.load(p).steps[0].run.outputs[0].outputSource
        r.see("nested_relative_saves")
        if a != b:
            scope = a.split("#")[1].rsplit("/", 1)[0]
            ok = b == "%s#%s/%s/x" % (a.split("#")[0], scope, scope)
            r.violation("relative-save-nested-scope" if ok else "relative-save-nested-scope-other",
                        version=version, first=a, second=b)


def prefix_probe(r):
    """A source whose name starts with that of its step."""
    d = tempfile.mkdtemp(dir=C.scratch)
    p = os.path.join(d, "p.cwl")
    for version in salad_ref.VERSIONS:
        doc = {"cwlVersion": version, "class": "Workflow", "inputs": [{"id": "a-b", "type": "int"}], "outputs": [],
               "steps": [{"id": "a", "in": [{"id": "x", "source": "a-b"}], "out": [], "run": "p.cwl"}]}
        json.dump(doc, open(p, "w"))
        got = save(docs.load(p))["steps"][0]["in"][0]["source"]
        r.see("prefix_saves")
        if got == "-b":
            r.violation("relative-save-prefix", version=version, got=got)
        elif got not in ("a-b", "#a-b"):
            r.violation("relative-save-prefix-other", version=version, got=got)


def body(C):
    for v in salad_ref.VERSIONS:
        salad_ref.schema(v)
    n = scale(16, 160)
    items = [(v, i, 10) for i in range(n) for v in salad_ref.VERSIONS]
    C.add(common.pool_run(chunk, items))
    C.add(common.pool_run(extensions, [(v, p) for v in salad_ref.VERSIONS for p in ("hints", "requirements")]))
    r = common.Result()
    probes(r)
    nested_scope_probe(r)
    prefix_probe(r)
    C.add(r)
    total = {(v, short, f.name) for v in salad_ref.VERSIONS for n, s in salad_ref.schema(v)[1].names.items()
             if s.type == "record" for short in [n.split(".")[-1]] for f in s.fields if ".salad." not in n}
    seen = C.total.cov & total
    C.extra["fields_in_schema"] = len(total)
    C.extra["fields_seen"] = len(seen)
    C.total.see("schema_fields_seen", len(seen))
    C.need("loads_compared", int(n * 30 * 0.8))
    C.need("saves_compared", int(n * 30 * 1.5))
    C.need("fixed_points_compared", int(n * 30 * 0.8))
    C.need("schema_fields_seen", int(0.75 * len(total)))


common.main(C, body)
