"""C05 identifiers and references: every spelling of a reference denotes the target the reference reader finds."""
import copy, json, os, re, shutil, tempfile
from pathlib import Path
from urllib.parse import quote
import common, gen, objdump, salad_ref, docs
from common import scale
from cwl_utils.parser import save

C = common.Check("C05", "random reference-heavy documents (nested inline processes, packed, run references over directories) "
                 "whose ids and references are re-spelled at random (bare, scoped, '#fragment', relative file, full URI, "
                 "prefixed or full term); every spelling must load to the absolute URIs the reference reader gives the plain "
                 "spelling; non-trivial = at least 3 references re-spelled; distinct by document text")
LINKS = {"source", "outputSource", "scatter"}


def respell(x, ref, base, rng, used, path=()):
    """Walk the written document and its resolved form side by side and rewrite references."""
    if isinstance(x, dict) and isinstance(ref, dict):
        out = {}
        for k, v in x.items():
            rv = ref.get(k)
            if k in LINKS or (k == "run" and isinstance(v, str)):
                v = link(v, rv, base, rng, used, k)
            elif k == "out" and isinstance(v, list) and len(v) == len(rv):
                v = [link(a, b, base, rng, used, "id") if isinstance(a, str) and isinstance(b, str)
                     else respell(a, b, base, rng, used) for a, b in zip(v, rv)]
            elif k in ("id", "name") and isinstance(v, str) and isinstance(rv, str) and rv.startswith(base) and "#" in rv:
                v = link(v, rv, base, rng, used, "id")
            elif k == "format":
                v = term(v, rv, rng, used)
            elif k in ("type", "items"):
                v = typ(v, rv, base, rng, used)
            elif k in ("default", "$namespaces", "hints") or ":" in k:
                pass
            else:
                v = respell(v, rv, base, rng, used, path + (k,))
            out[k] = v
        return out
    if isinstance(x, list) and isinstance(ref, list) and len(x) == len(ref):
        return [respell(a, b, base, rng, used, path) for a, b in zip(x, ref)]
    return x


def link(v, rv, base, rng, used, kind):
    if isinstance(v, list):
        return [link(a, b, base, rng, used, kind) for a, b in zip(v, rv)] if isinstance(rv, list) and len(rv) == len(v) else v
    if not isinstance(v, str) or not isinstance(rv, str) or "://" not in rv:
        return v
    k = rng.random()
    if k < 0.4:
        return v
    used.append(kind)
    if k < 0.7 and rv.startswith(base + "#"):
        return rv[len(base):]
    if k < 0.85 and rv.startswith(base + "#"):
        return base.rsplit("/", 1)[1] + rv[len(base):]
    return rv


def term(v, rv, rng, used):
    if isinstance(v, list):
        return [term(a, b, rng, used) for a, b in zip(v, rv)] if isinstance(rv, list) and len(rv) == len(v) else v
    if isinstance(v, str) and isinstance(rv, str) and rv.startswith(gen.EXT) and rng.random() < 0.5:
        used.append("format")
        return rv
    return v


def typ(v, rv, base, rng, used):
    if isinstance(v, list) and isinstance(rv, list) and len(v) == len(rv):
        return [typ(a, b, base, rng, used) for a, b in zip(v, rv)]
    if isinstance(v, str) and v.startswith("#") and isinstance(rv, str) and rv.startswith(base):
        return link(v, rv, base, rng, used, "typeref")
    if isinstance(v, dict):
        return respell(v, rv, base, rng, used)
    return v


def by_id(x):
    return {p["id"]: p for p in (x if isinstance(x, list) else [x])}


def nov(x):
    for p in x.values():
        p.pop("cwlVersion", None)
    return x


def chunk(item, r):
    version, seed, n = item
    rng = C.rng("chunk", version, seed)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.15, 0.3]))
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    tool = {"cwlVersion": version, "class": "CommandLineTool", "inputs": [], "outputs": [], "baseCommand": "x"}
    os.makedirs(os.path.join(d, "other dir"))
    for f in ("sub/t.cwl", "sub/deep/t.cwl", "t.cwl", "other dir/t.cwl", "sub/sp ace.cwl"):
        gen.write_doc(d, f, tool)
    gen.write_doc(d, "sub/g.cwl", {"cwlVersion": version, "$graph": [dict(tool, id="main"), dict(tool, id="b.c")]})
    for i in range(n):
        where = rng.choice(["", "sub/", "sub/deep/", "other dir/"])
        here = os.path.join(d, where)
        docs.setup(here)
        fname = rng.choice(["d.cwl", "d-e.x.cwl", "dé.cwl"])
        runs = [os.path.relpath(os.path.join(d, f), here) for f in ("sub/t.cwl", "sub/deep/t.cwl", "t.cwl")]
        runs += [os.path.relpath(os.path.join(d, "sub/g.cwl"), here) + "#" + f for f in ("main", "b.c")]
        runs += [Path(d, f).as_uri() for f in ("sub/t.cwl", "other dir/t.cwl", "sub/sp ace.cwl")]
        pk = rng.random() < 0.3
        if pk:
            doc, names = docs.packed(g, rng)
        else:
            doc = gen.document(g, rng.choice(["Workflow", "Workflow", "Workflow", None]), runrefs=runs,
                               top_id=rng.choice([None, None, "#main", "top"]))
        if len(common.jdump(doc)) > 12000:
            continue
        path = gen.write_doc(here, fname, doc, rng)
        base = Path(path).as_uri()
        try:
            ref = salad_ref.resolve(path, version)
        except Exception:
            r.see("reference_rejected")
            continue
        raw = ref["$graph"] if isinstance(ref, dict) and "$graph" in ref else ref
        want = nov(by_id([docs.canon(x) for x in raw])) if pk else {"": docs.canon(raw)}
        for k in range(4):
            used = []
            if k == 0:
                written = doc
            elif pk:
                written = dict(doc, **{"$graph": [respell(a, b, base, rng, used) for a, b in zip(doc["$graph"], raw)]})
            else:
                written = respell(doc, raw, base, rng, used)
            gen.write_doc(here, fname, written, rng)
            if k:
                # the re-spelled document must mean the same to the reference reader, else the spelling is not ours to judge
                try:
                    ref2 = salad_ref.resolve(path, version)
                    raw2 = ref2["$graph"] if isinstance(ref2, dict) and "$graph" in ref2 else ref2
                    want2 = nov(by_id([docs.canon(x) for x in raw2])) if pk else {"": docs.canon(raw2)}
                except Exception:
                    r.see("respelling_rejected")
                    continue
                if objdump.diff(want, want2):
                    r.see("respelling_differs")
                    continue
            try:
                o = docs.load(path, load_all=pk)
            except Exception as e:
                r.violation("valid-reference-rejected", version=version, doc=written, where=where + fname,
                            error=str(e)[-1200:])
                continue
            got = nov(by_id([docs.canon(objdump.dump(x)) for x in o])) if pk else {"": docs.canon(objdump.dump(o))}
            df = objdump.diff(want, got)
            r.case([version, written, where], len(used) >= 3 or k == 0, {"version": version, "doc": written})
            for u in used:
                r.see("respelled_" + u)
            r.see("documents_compared")
            if df:
                r.violation("wrong-target", version=version, doc=written, where=where + fname, diff=df)
            targets(o if pk else [o], r, written, version)
    shutil.rmtree(d)


def targets(procs, r, doc, version):
    """Each link names an identifier that exists in the loaded objects."""
    from cwl_utils.parser import is_process
    for p in procs:
        if type(p).__name__ != "Workflow":
            continue
        known = {i.id for i in p.inputs or []}
        for s in p.steps or []:
            for o in s.out:
                known.add(o if isinstance(o, str) else o.id)
            known_in = {i.id for i in s.in_}
            for sc in ([s.scatter] if isinstance(s.scatter, str) else s.scatter or []):
                r.see("links_followed")
                if sc not in known_in:
                    r.violation("dangling-scatter", version=version, doc=doc, link=sc)
            if is_process(s.run):
                targets([s.run], r, doc, version)
        for holder, attr in [(o, "outputSource") for o in p.outputs or []] + \
                [(i, "source") for s in p.steps or [] for i in s.in_]:
            v = getattr(holder, attr)
            for src in ([v] if isinstance(v, str) else v or []):
                r.see("links_followed")
                if src not in known:
                    r.violation("dangling-link", version=version, doc=doc, link=src, holder=holder.id)


def imported(version, r):
    """References inside imported fragments resolve against the file they stand in."""
    d = tempfile.mkdtemp(dir=C.scratch)
    os.makedirs(os.path.join(d, "wf"))
    os.makedirs(os.path.join(d, "lib", "deep"))
    U = Path(d).as_uri()
    tool = {"cwlVersion": version, "class": "CommandLineTool", "inputs": [{"id": "x", "type": "File"}], "outputs": [],
            "baseCommand": "x"}
    for f in ("lib/t.cwl", "wf/t.cwl", "lib/deep/t.cwl"):
        gen.write_doc(d, f, tool)
    for f in ("lib/data.txt", "wf/data.txt", "lib/deep/data.txt"):
        open(os.path.join(d, f), "w").close()
    gen.write_doc(d, "lib/step.yml", {"id": "s", "run": "t.cwl", "in": [{"id": "x", "default": {"class": "File", "location":
                  "data.txt"}}], "out": []})
    gen.write_doc(d, "lib/deep/in.yml", {"id": "y", "default": {"class": "File", "location": "data.txt"}, "type": "File"})
    gen.write_doc(d, "lib/types.yml", {"class": "SchemaDefRequirement", "types": [{"$import": "deep/rec.yml"}]})
    gen.write_doc(d, "lib/deep/rec.yml", {"type": "record", "name": "Rec", "fields": [
        {"name": "f", "type": {"type": "enum", "name": "En", "symbols": ["a", "b"]}}]})
    gen.write_doc(d, "wf/d.cwl", {
        "cwlVersion": version, "class": "Workflow",
        "inputs": [{"$import": "../lib/deep/in.yml"}, {"id": "z", "type": "../lib/deep/rec.yml#Rec"}],
        "requirements": [{"$import": "../lib/types.yml"}],
        "outputs": [], "steps": [{"$import": "../lib/step.yml"}, {"id": "s2", "run": "t.cwl", "in": [
            {"id": "x", "default": {"class": "File", "location": "data.txt"}}], "out": []}]})
    try:
        o = docs.load(os.path.join(d, "wf/d.cwl"))
    except Exception as e:
        r.violation("imports-not-loaded", version=version, error=str(e)[-1500:])
        return
    x = objdump.dump(o)
    rec = x["requirements"][0]["types"][0]
    got = {
        "run of imported step": x["steps"][0]["run"], "run of own step": x["steps"][1]["run"],
        "default of imported step": x["steps"][0]["in"][0]["default"]["location"],
        "default of own step": x["steps"][1]["in"][0]["default"]["location"],
        "default of imported input": x["inputs"][0]["default"]["location"],
        "type reference": x["inputs"][1]["type"], "imported record": rec["name"],
    }
    want = {
        "run of imported step": U + "/lib/t.cwl", "run of own step": U + "/wf/t.cwl",
        "default of imported step": U + "/lib/data.txt", "default of own step": U + "/wf/data.txt",
        "default of imported input": U + "/lib/deep/data.txt",
        "type reference": U + "/lib/deep/rec.yml#Rec", "imported record": U + "/lib/deep/rec.yml#Rec",
    }
    # file locations inside free-form defaults are left as written by the loader; the reference reader decides
    ref = salad_ref.resolve(os.path.join(d, "wf/d.cwl"), version)
    for k in list(want):
        if k.startswith("default"):
            alt = {"data.txt", want[k]}
            if got[k] not in alt:
                r.violation("import-base", version=version, what=k, got=got[k], want=want[k])
        elif got[k] != want[k]:
            r.violation("import-base", version=version, what=k, got=got[k], want=want[k])
        r.see("import_bases")
    r.case([version, "imports"])
    if ref["steps"][0]["run"] != got["run of imported step"]:
        r.violation("import-base-vs-reference", version=version, got=got, ref=ref["steps"][0]["run"])
    shutil.rmtree(d)


def bases(version, r):
    """The base URI given by the caller, of any scheme and shape, is what ids are relative to."""
    from cwl_utils.parser import load_document_by_string
    doc = json.dumps({"cwlVersion": version, "class": "Workflow", "$namespaces": {"p": "http://p.example/ns#", "q": "http://q/"},
                      "inputs": [{"id": "a", "type": "File", "format": ["p:x", "q:y/z", "http://full/t"]}], "outputs": [
        {"id": "o", "type": "File", "outputSource": "a", "format": "p:x"}],
        "steps": [], "p:note": 1, "q:deep": {"p:inner": "p:notexpanded"}})
    d = tempfile.mkdtemp(dir=C.scratch)
    for rel in ("x.cwl", "a b/x.cwl", "ü/x.cwl", "pl+us/x.cwl", "a/b/c/../../x.cwl"):
        p = os.path.normpath(os.path.join(d, rel))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(doc)
        u = Path(p).as_uri()
        with common.quiet():
            o = load_document_by_string(doc, u)
        got = [o.id, o.inputs[0].id, o.outputs[0].outputSource, o.outputs[0].format, sorted(o.extension_fields)] + list(o.inputs[0].format)
        want = [u, u + "#a", u + "#a", "http://p.example/ns#x", ["http://p.example/ns#note", "http://q/deep"],
                "http://p.example/ns#x", "http://q/y/z", "http://full/t"]
        r.see("base_uris")
        r.case([version, rel])
        if got != want:
            r.violation("base-uri", version=version, rel=rel, got=got, want=want)
        s = save(o, relative_uris=False)
        r.see("base_uris")
        if s["inputs"][0]["id"] != u + "#a" or s["outputs"][0]["outputSource"] != u + "#a" or \
                s.get("p:note", s.get("http://p.example/ns#note")) != 1:
            r.violation("absolute-save", version=version, rel=rel, saved=s)
        s = save(o)
        if s["inputs"][0]["id"] != "a" or s["outputs"][0]["outputSource"] != "a" or s.get("p:note") != 1:
            r.violation("relative-save", version=version, rel=rel, saved=s)
    shutil.rmtree(d)


def body(C):
    for v in salad_ref.VERSIONS:
        salad_ref.schema(v)
    n = scale(16, 200)
    C.add(common.pool_run(chunk, [(v, i, 7) for i in range(n) for v in salad_ref.VERSIONS]))
    r = common.Result()
    for v in salad_ref.VERSIONS:
        imported(v, r)
        bases(v, r)
    C.add(r)
    C.need("documents_compared", n * 3 * 5)
    C.need("links_followed", n * 30)
    C.need("respelled_source", n * 4)
    C.need("respelled_run", n)
    C.need("import_bases", 21)
    C.need("base_uris", 30)


common.main(C, body)
