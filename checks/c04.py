"""C04 agreement of all entry points, over local files and loopback HTTP."""
import copy, functools, http.server, json, os, shutil, tempfile, threading
from pathlib import Path
from urllib.parse import quote
import common, gen, objdump, salad_ref, docs
from common import scale
from ruamel.yaml import YAML
from schema_salad.exceptions import SchemaSaladException
from cwl_utils.errors import GraphTargetMissingException
from cwl_utils.parser import (cwl_v1_0, cwl_v1_1, cwl_v1_2, cwl_version, is_process, load_document, load_document_by_string,
                              load_document_by_uri, load_document_by_yaml, save, LoadingOptions)
from cwl_utils.parser.utils import load_step

C = common.Check("C04", "one random document (single or $graph) loaded through every entry point (relative and absolute path, "
                 "Path, file URI, http URI, text, parsed YAML, plain dict; with and without fragment, id, load_all, loading "
                 "options); the resulting objects are compared with each other; non-trivial = all entry points answered; "
                 "distinct by document text")
MODS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
PORT = None


def view(o, bases):
    def short(x):
        if isinstance(x, dict):
            return {k: short(v) for k, v in x.items()}
        if isinstance(x, list):
            return [short(v) for v in x]
        if isinstance(x, str):
            for b in bases:
                if b in x:
                    x = x.replace(b, "BASE")
        return x
    if isinstance(o, list):
        return [short(docs.canon(objdump.dump(x))) for x in o]
    return short(docs.canon(objdump.dump(o)))


def right_version(o, version):
    return all(type(x).__module__ == MODS[version].__name__ and is_process(x) and x.cwlVersion == version
               for x in (o if isinstance(o, list) else [o]))


def chunk(item, r):
    version, seed, n = item
    rng = C.rng("chunk", version, seed)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.2, 0.4]))
    for i in range(n):
        d = os.path.join(C.scratch, "%s_%s_%d" % (version, seed, i))
        d = os.path.join(d, rng.choice(["plain", "with space", "plus+plus", "ünï", "a&b=c"]))
        os.makedirs(d)
        docs.setup(d)
        one(version, rng, g, d, r)
        shutil.rmtree(os.path.dirname(d))


def make(g, rng, pk):
    if pk:
        doc, names = docs.packed(g, rng, True)
        if rng.random() < 0.15:
            names = [x if x != "main" else "other" for x in names]
            doc["$graph"][0]["id"] = "#other"
        return doc, names
    return gen.document(g, top_id=rng.choice([None, None, "#main", "main"])), []


def one(version, rng, g, d, r):
    pk = rng.random() < 0.5
    while True:
        doc, names = make(g, rng, pk)
        if len(json.dumps(doc)) < 5000:
            break
    fname = rng.choice(["d.cwl", "d d.cwl", "d+e.cwl", "dé.cwl", "d.main.cwl"])
    path = gen.write_doc(d, fname, doc, rng)
    text = open(path, encoding="utf-8").read()
    fu = Path(path).as_uri()
    hu = "http://127.0.0.1:%d/%s" % (PORT, quote(os.path.relpath(path, C.scratch)))
    bases = [os.path.dirname(fu) + "/", os.path.dirname(hu) + "/"]
    bases += [b.rstrip("/") for b in bases]
    rel = os.path.relpath(path, os.getcwd())

    tree = YAML().load(text)

    def parse():
        return copy.deepcopy(tree)

    def entries(id_, load_all):
        kw = {"load_all": load_all}
        frag = "#" + id_ if id_ else ""
        out = {}
        if "?" not in path:
            out["path"] = lambda: load_document_by_uri(path + frag, **kw)
            out["relative path"] = lambda: load_document_by_uri(rel + frag, **kw)
        out["Path"] = lambda: load_document_by_uri(Path(path + frag), **kw)
        out["file uri"] = lambda: load_document_by_uri(fu + frag, **kw)
        out["http uri"] = lambda: load_document_by_uri(hu + frag, **kw)
        out["path+options"] = lambda: load_document_by_uri(path + frag, LoadingOptions(), **kw)
        out["string"] = lambda: load_document_by_string(text, fu, id_=id_, **kw)
        out["load_document(str)"] = lambda: load_document(text, fu, id_=id_, **kw)
        out["yaml"] = lambda: load_document_by_yaml(parse(), fu, id_=id_, **kw)
        out["load_document(yaml)"] = lambda: load_document(parse(), fu, None, id_, load_all)
        out["string http"] = lambda: load_document_by_string(text, hu, None, id_, load_all)
        return out

    choices = [(None, False), (None, True)] + [(n, False) for n in rng.sample(names, min(2, len(names)))]
    for id_, load_all in choices:
        want_error = pk and not load_all and (id_ or "main") not in names
        results = {}
        for name, f in entries(id_, load_all).items():
            try:
                with common.quiet():
                    o = f()
            except Exception as e:
                results[name] = e
                continue
            r.see("loads")
            if not right_version(o, version):
                r.violation("wrong-version", version=version, entry=name, doc=doc, id=id_, load_all=load_all)
            results[name] = view(o, bases)
            if pk and not load_all and results[name].get("id") != "BASE%s#%s" % (quote(fname), id_ or "main"):
                r.violation("wrong-process", entry=name, id=id_, got=results[name].get("id"), doc=doc)
            if pk and load_all and [x["id"].split("#")[1] for x in results[name]] != \
                    [x["id"].lstrip("#") for x in doc["$graph"]]:
                r.violation("wrong-order", entry=name, got=[x["id"] for x in results[name]], doc=doc)
        errors = {k: v for k, v in results.items() if isinstance(v, Exception)}
        if want_error:
            for k, v in results.items():
                if not isinstance(v, GraphTargetMissingException):
                    r.violation("absent-main-accepted", entry=k, doc=doc, outcome=str(v)[:500])
            r.see("absent_targets")
            continue
        if len(errors) == len(results):
            r.see("all_reject")
            return
        for k, v in errors.items():
            r.violation("entry-point-fails", entry=k, id=id_, load_all=load_all, version=version, doc=doc, fname=fname,
                        dirname=os.path.basename(d), error="%s: %s" % (type(v).__name__, str(v)[-800:]))
        if errors:
            return
        first = results["string"]
        for k, v in results.items():
            df = objdump.diff(first, v)
            if df:
                r.violation("entry-points-differ", entry=k, id=id_, load_all=load_all, version=version, doc=doc, diff=df)
        r.see("agreements")
        r.case([doc, id_, load_all, fname], sample={"doc": doc, "id": id_, "entries": sorted(results)})
    if pk:
        byid = view(load_document_by_string(text, fu, load_all=True), bases)
        for n in names:
            one_ = view(load_document_by_string(text, fu, id_=n), bases)
            w = [x for x in byid if x["id"].endswith("#" + n)]
            df = objdump.diff(w[0], one_) if len(w) == 1 else ["%d processes called %s" % (len(w), n)]
            if df:
                r.violation("selected-differs-from-all", version=version, doc=doc, id=n, diff=df)
        for bad in (names[-1] + "x", names[-1][:-1].rstrip("/") or "q"):
            if bad in names:
                continue
            for name, f in entries(bad, False).items():
                try:
                    with common.quiet():
                        f()
                    r.violation("absent-id-accepted", entry=name, id=bad, doc=doc)
                except SchemaSaladException:
                    r.see("absent_targets")
                except GraphTargetMissingException:
                    r.see("absent_targets")
                except Exception as e:
                    r.violation("absent-id-odd-error", entry=name, id=bad, doc=doc, error=repr(e)[:500])
    # the parsed input keeps its content
    for id_, load_all in choices[:3]:
        y = parse()
        before, order = common.jdump(y), json.dumps(y, default=str)
        try:
            with common.quiet():
                load_document_by_yaml(y, fu, id_=id_, load_all=load_all)
        except Exception:
            pass
        if common.jdump(y) != before or json.dumps(y, default=str) != order:
            r.violation("input-modified", doc=doc, id=id_, load_all=load_all)
        r.see("inputs_kept")
    if cwl_version(parse()) != version:
        r.violation("cwl_version-query", doc=doc)
    # load_step: by reference, relative to the file of the step
    with common.quiet():
        try:
            allp = load_document_by_uri(path, load_all=pk)
        except Exception:
            return
        for o in allp if pk else [allp]:
            for st in getattr(o, "steps", None) or []:
                got = load_step(st)
                if isinstance(st.run, str):
                    want = view(load_document_by_uri(st.run), bases)
                    r.see("load_step_refs")
                else:
                    want = view(st.run, bases)
                    r.see("load_step_inline")
                    if got is st.run:
                        r.violation("load_step-shares-object", doc=doc)
                df = objdump.diff(want, view(got, bases))
                if df:
                    r.violation("load_step-differs", doc=doc, step=st.id, diff=df)


TOOL = {"class": "CommandLineTool", "inputs": [], "outputs": [], "baseCommand": "x"}


def fixed(r):
    d = tempfile.mkdtemp(dir=C.scratch)
    p = os.path.join(d, "t.cwl")
    fu = Path(p).as_uri()
    for bad in (None, "v1.3", "v1.2.0-dev1", "draft-3", "v1", "1.2", "v1.20", "V1.0", "", "v1.0 "):
        for doc in (dict(TOOL), {"$graph": [dict(TOOL, id="main")]}):
            if bad is not None:
                doc = dict({"cwlVersion": bad}, **doc)
            text = json.dumps(doc)
            with open(p, "w") as f:
                f.write(text)
            for name, f in (("uri", lambda: load_document_by_uri(p)), ("string", lambda: load_document_by_string(text, fu)),
                            ("yaml", lambda: load_document_by_yaml(YAML().load(text), fu)),
                            ("all", lambda: load_document_by_uri(p, load_all=True))):
                try:
                    with common.quiet():
                        o = f()
                    r.violation("bad-version-accepted", version=bad, entry=name, doc=doc)
                except SchemaSaladException:
                    pass
                except Exception as e:
                    r.violation("bad-version-odd-error", version=bad, entry=name, doc=doc, error=repr(e)[:300])
                r.see("bad_versions")
                r.case([bad, name, doc])
    for y in ([], "text", 3, None, ["cwlVersion"]):
        try:
            cwl_version(y)
            r.violation("cwl_version-of-non-map", value=y)
        except SchemaSaladException:
            r.see("bad_versions")
    # a step's run in another directory, with and without fragment, relative to the step's own file
    os.makedirs(os.path.join(d, "sub", "deep"))
    for version in MODS:
        g = {"cwlVersion": version, "$graph": [dict(TOOL, id="#main", label="m"), dict(TOOL, id="#other", label="o")]}
        json.dump(g, open(os.path.join(d, "sub", "deep", "g.cwl"), "w"))
        json.dump(dict(TOOL, cwlVersion=version, label="t"), open(os.path.join(d, "sub", "deep", "t.cwl"), "w"))
        sub = {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [], "label": "s",
               "requirements": [{"class": "SubworkflowFeatureRequirement"}], "steps": [
                   {"id": "s%d" % i, "in": [], "out": [], "run": x} for i, x in enumerate(
                       ["deep/t.cwl", "deep/g.cwl", "deep/g.cwl#main", "deep/g.cwl#other", "../sub/deep/t.cwl"])]}
        json.dump(sub, open(os.path.join(d, "sub", "s.cwl"), "w"))
        top = dict(sub, label="top", steps=[{"id": "s", "in": [], "out": [], "run": "sub/s.cwl"}])
        json.dump(top, open(p, "w"))
        with common.quiet():
            s = load_step(load_document_by_uri(p).steps[0])
            got = [s.label] + [load_step(x).label for x in s.steps]
        r.see("run_chains")
        if got != ["s", "t", "m", "m", "o", "t"]:
            r.violation("run-reference-target", version=version, got=got)


class H(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *a):
        pass


def body(C):
    global PORT
    for v in salad_ref.VERSIONS:
        salad_ref.schema(v)
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(H, directory=C.scratch))
    PORT = srv.server_port
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    n = scale(6, 80)
    C.add(common.pool_run(chunk, [(v, i, 4) for i in range(n) for v in salad_ref.VERSIONS]))
    r = common.Result()
    fixed(r)
    C.add(r)
    C.need("agreements", n * 3 * 4)
    C.need("absent_targets", n * 6)
    C.need("load_step_refs", n)
    C.need("inputs_kept", n * 12)
    C.need("bad_versions", 80)


common.main(C, body)
