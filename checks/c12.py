"""C12 packing: documents spread over files, packed, compared with the inlined document they were made from."""
import contextlib, functools, hashlib, http.server, io, json, logging, os, re, shutil, sys, tempfile, threading
from urllib.parse import quote
import common, docs, gen, objdump, salad_ref, tree
from common import scale
from cwl_utils import pack_cli
from cwl_utils.pack import pack
from cwl_utils.parser import load_document_by_uri

logging.disable(logging.CRITICAL)
C = common.Check("C12", "one random document spread over files and directories ($import, $include, run references, imported "
                 "types), packed and compared, through the reference reader, with the inlined document it was made from; distinct "
                 "by content; non-trivial = at least one other file is involved")


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha1(h.read()).hexdigest()
    return out


def leftovers(x, path=""):
    """Places of a packed document that still refer to other files."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("$import", "$include"):
                yield path + "/" + k
            elif k == "run" and isinstance(v, str):
                yield path + "/run: " + v
            elif k != "default":
                yield from leftovers(v, path + "/" + k)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leftovers(v, "%s[%d]" % (path, i))


def undeclared(p, given=False):
    """Packed workflows that run a workflow, where neither they nor what they are part of require that."""
    if isinstance(p, dict) and p.get("class") == "Workflow":
        given = given or any(q.get("class") == "SubworkflowFeatureRequirement" for q in p.get("requirements") or [])
        runs = [s["run"] for s in p["steps"]]
        if not given and any(x["class"] == "Workflow" for x in runs):
            yield p.get("id", "?")
        for x in runs:
            yield from undeclared(x, given)


def nested(p):
    return p.get("class") == "Workflow" and any(s["run"]["class"] == "Workflow" or nested(s["run"]) for s in p["steps"])


def anon(x):
    """Without generated names of types."""
    if isinstance(x, dict):
        return {k: anon(v) for k, v in x.items() if not (k == "name" and x.get("type") in ("record", "enum", "array"))}
    return [anon(v) for v in x] if isinstance(x, list) else x


def unbound(x, inside=False):
    """Without the input bindings of record, enum and array types and their fields."""
    if isinstance(x, dict):
        typ = inside or x.get("type") in ("record", "enum", "array")
        return {k: unbound(v, k == "fields") for k, v in x.items() if not (typ and k == "inputBinding")}
    return [unbound(v, inside) for v in x] if isinstance(x, list) else x


def probes(item, r):
    """The listed findings."""
    name, version = item
    d = tempfile.mkdtemp(dir=C.scratch)
    tool = {"class": "ExpressionTool", "id": "t", "inputs": [], "outputs": [], "expression": "$({})",
            "requirements": [{"class": "InlineJavascriptRequirement"}]}
    wf = {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [], "steps": [
        {"id": "s", "in": [], "out": [], "run": "lib.cwl#t"}]}
    if name == "inlined-type-binding":
        wf["requirements"] = [{"class": "SchemaDefRequirement", "types": [
            {"type": "record", "name": "rec", "fields": [{"name": "f", "type": "int", "inputBinding": {"prefix": "-f"}}]}]}]
        wf["outputs"] = [{"id": "o", "type": "#rec", "outputSource": "i"}]
        wf["inputs"] = [{"id": "i", "type": "#rec"}]
        wf["steps"] = []
    write(d, {"lib.cwl": {"cwlVersion": version, "$graph": [tool, dict(tool, id="main")]}, "main.cwl": wf}, C.rng(name, version))
    try:
        with common.quiet():
            packed = pack(d + "/main.cwl")
        write(d, {"packed.cwl": json.dumps(packed)}, None)
        os.remove(d + "/lib.cwl")
        refs_of(d + "/packed.cwl", version)
        r.see("finding gone: " + name)
    except Exception as e:
        r.violation(name, version=version, wf=wf, error="%s: %s" % (type(e).__name__, e))
    r.see("probe of a finding")
    shutil.rmtree(d)


def refs_of(path, version):
    d = salad_ref.resolve(path, version)
    return docs.canon(tree.normal(tree.absolute(d, "file://" + path)))


def spread(rng, g, version, d):
    cls = rng.choice(["Workflow"] * 4 + ["CommandLineTool", "ExpressionTool"])
    while True:
        doc = gen.document(g, cls)
        if len(json.dumps(doc)) < 9000 and (cls != "Workflow" or doc.get("steps")):
            break
    for p in [doc] + (doc.get("steps") or []) + doc["inputs"]:
        if rng.random() < 0.1:
            p["label"] = rng.choice(["2020-01-01", "2021-12-31"])
            p["doc"] = ["2020-01-01", "2022-02-03 10:00:00"]
    t = tree.Tree(rng, version, p_file=rng.choice([0.3, 0.7, 1.0]), p_import=rng.choice([0, 0.3, 0.6]),
                  p=rng.choice([0, 0.5, 1]), p_extract=rng.choice([0, 0.2, 0.5]), p_whole=rng.choice([0, 0, 0.3]))
    top = rng.choice(["main.cwl", "wf/main.cwl", "sp ace/main.cwl", "a/b/c d.cwl"])
    c = t.process(doc, top, True)
    t.files[top] = c
    return doc, t, top


def write(d, files, rng):
    for f, c in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as h:
            h.write(c if isinstance(c, str) else re.sub(r"'(2[0-9-]{9})'", r"\1", gen.write_yaml(c, rng)))


LINK = re.compile(r"[-\w. /]+\.\w+")


class Handler(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *args):
        pass


@contextlib.contextmanager
def served(d):
    """URL of a directory."""
    os.environ["no_proxy"] = "*"
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(Handler, directory=d))
    t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.02})
    t.start()
    try:
        yield "http://127.0.0.1:%d/" % s.server_port
    finally:
        s.shutdown()
        t.join()
        s.server_close()


def one(version, rng, g, d, r):
    src, alone = os.path.join(d, "src"), os.path.join(d, "alone")
    os.makedirs(src)
    os.makedirs(alone)
    doc, t, top = spread(rng, g, version, src)
    write(src, t.files, rng)
    home = os.path.dirname(os.path.join(src, top))
    for f in set(tree.locations(doc)):
        p = os.path.normpath(os.path.join(home, f))
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.makedirs(os.path.join(home, "sub"), exist_ok=True)
            open(p, "w").close()
            r.see("default files")
    model = os.path.join(home, "model.cwl")
    with open(model, "w", encoding="utf-8") as h:
        json.dump(doc, h, ensure_ascii=False)
    info = dict(version=version, doc=doc, files=t.files, top=top)
    try:
        want = refs_of(model, version)
    except Exception as e:
        r.see("reference_rejected")
        return
    before = snapshot(src)
    path = os.path.join(src, top)
    how = rng.choice(["path", "relative", "cli", "cli-file", "uri", "http"])
    if how == "http" and any(isinstance(x, str) and LINK.fullmatch(x) for x in t.files.values()):
        how = "uri"     # text that is taken for a symbolic link
    if how != "http" and rng.random() < 0.08 and path.isascii() and all(f.isascii() for f in before):
        how = "command"
    out = os.path.join(home, "packed.cwl")
    text = None
    with common.quiet():
        try:
            if how == "path":
                packed = pack(path)
            elif how == "relative":
                packed = pack(os.path.relpath(path))
            elif how == "http":
                web = os.path.join(d, "web")
                shutil.copytree(src, web)
                for f in t.files:
                    where, name = os.path.split(os.path.join(web, f))
                    if rng.random() < 0.15 and LINK.fullmatch(name) and name.isascii():       # as GitHub serves symbolic links
                        os.rename(os.path.join(where, name), os.path.join(where, "real-" + name))
                        with open(os.path.join(where, name), "w") as h:
                            h.write("real-" + name)
                        r.see("links")
                with served(web) as url:
                    packed = pack(url + quote(top))
                packed = json.loads(json.dumps(packed).replace(url, "file://" + quote(src) + "/"))
            elif how == "uri":
                packed = pack("file://" + path.replace(" ", "%20"))
            elif how == "command":
                p = common.command("cwl_utils.pack_cli", [path], ascii_locale=rng.random() < 0.7)
                if p.returncode:
                    r.violation("command-fails", error=p.stderr.decode(errors="replace")[-1500:], **info)
                    return
                text = p.stdout.decode("utf-8")
                packed = json.loads(text)
            elif how == "cli":
                o = io.StringIO()
                sys.argv, stdout, sys.stdout = ["cwl-pack", path, "--indent", "1"], sys.stdout, o
                try:
                    if pack_cli.main() != 0:
                        r.violation("cli-status", **info)
                finally:
                    sys.stdout = stdout
                text = o.getvalue()
                packed = json.loads(text)
            else:
                sys.argv = ["cwl-pack", "-o", out, path]
                if pack_cli.main() != 0:
                    r.violation("cli-status", **info)
                text = open(out, encoding="utf-8").read()
                packed = json.loads(text)
        except (Exception, SystemExit) as e:
            import traceback
            r.violation("pack-fails", how=how, error="%s: %s" % (type(e).__name__, str(e)[:1500]),
                        where=traceback.format_exc()[-900:], **info)
            return
    r.see("packed by " + how)
    for k, v in t.used.items():
        r.see("used " + k, v)
    r.case(t.files, len(t.files) > 1, {"files": sorted(t.files), "used": t.used})
    info["packed"] = packed
    after = snapshot(src)
    after.pop(os.path.relpath(out, src), None)
    if after != before:
        r.violation("source-files-changed", **info)
    left = list(leftovers(packed))
    if left:
        r.violation("not-self-contained", left=left, **info)
        return
    try:
        text = text or json.dumps(packed, ensure_ascii=False)
    except Exception as e:
        r.violation("not-json", error=str(e), **info)
        return
    for f in t.files:
        p = os.path.join(alone, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.rename(os.path.join(src, f), p)
    with open(out, "w", encoding="utf-8") as h:
        h.write(text)
    if packed.get("cwlVersion") != version:
        r.violation("version-changed", got=packed.get("cwlVersion"), **info)
    try:
        got = refs_of(out, version)
    except Exception as e:
        # inlined user types bring their inputBinding along where CWL has none
        with open(out, "w", encoding="utf-8") as h:
            json.dump(unbound(packed), h, ensure_ascii=False)
        try:
            got = unbound(refs_of(out, version))
        except Exception:
            got = None
        key = "inlined-type-binding" if got is not None and not objdump.diff(unbound(want), got) else "packed-invalid"
        r.violation(key, how=how, error=str(e)[-2500:], **info)
        return
    df = objdump.diff(want, got)
    r.see("compared")
    if df:
        r.violation("packed-differs", how=how, diff=df, **info)
        return
    if nested(packed):
        r.see("sub-workflows")
        bad = list(undeclared(packed))
        if bad:
            r.violation("sub-workflow-not-declared", workflows=bad, **info)
    try:
        with common.quiet():
            load_document_by_uri(out)
        r.see("loaded alone")
    except Exception as e:
        r.violation("packed-not-loadable", error=str(e)[-1500:], **info)
        return
    if rng.random() < 0.5:      # again, and packing the packed document
        for f in t.files:
            os.rename(os.path.join(alone, f), os.path.join(src, f))
        with common.quiet():
            p2, p3 = pack(path), pack(out)
        for what, p in (("again", p2), ("packed-again", p3)):
            df = objdump.diff(anon(json.loads(text)), anon(json.loads(json.dumps(p))))
            r.see("packed " + what)
            if df:
                r.violation("pack-%s-differs" % what, diff=df, **info)


def chunk(item, r):
    version, k, n = item
    rng = C.rng("spread", version, k)
    g = gen.Gen(rng, version, max_depth=rng.choice([1, 2, 2, 3]), p_opt=rng.choice([0.15, 0.3]))
    for i in range(n):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(version, rng, g, d, r)
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    c.need("compared", 400)
    c.need("used run by reference", 200)
    c.need("used $include", 200)
    c.need("used $import:req", 40)
    c.need("used types in one file", 20)
    c.need("used step imported", 5)
    c.need("used parameter imported", 20)
    c.need("default files", 30)
    c.need("packed again", 100)
    c.need("sub-workflows", 15)
    c.need("packed by command", 20)
    c.need("packed by http", 60)
    c.need("links", 20)
    c.add(common.pool_run(probes, [(n, v) for n in ("run-of-graph-process", "inlined-type-binding") for v in salad_ref.VERSIONS[1:]]))
    c.add(common.pool_run(chunk, [(v, k, 4) for k in range(scale(80, 2500)) for v in salad_ref.VERSIONS]))


common.main(C, body)
