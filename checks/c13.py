"""C13 splitting: packed documents split into files, read back by the reference reader, compared process by process."""
import copy, hashlib, io, json, logging, os, re, shutil, tempfile
from urllib.parse import unquote
import common, docs, gen, objdump, salad_ref, tree
from common import scale
from cwl_utils import graph_split
from cwl_utils.parser import load_document_by_uri

logging.disable(logging.CRITICAL)
C = common.Check("C13", "one random packed document ($graph with plain or absolute names, types of other files, as written by hand or by "
                 "cwltool --pack), split to a directory; distinct by content; non-trivial = a process refers to another one")


def snapshot(d, skip=()):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if os.path.join(root, x) not in skip]
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha1(h.read()).hexdigest()
    return out


def prefixed(x, old, new):
    return tree.rewrite(x, lambda s: new + s[len(old):] if s.startswith(old) else s)


def processes_of_packed(path, version):
    """name -> the process, with the processes it runs in place and its ids relative to it."""
    ps = salad_ref.resolve(path, version)
    uri = salad_ref.file_uri(path)
    ps = tree.absolute(ps, uri)
    byid = {p["id"]: p for p in ps}

    def expand(x):
        if isinstance(x, dict):
            return {k: form(byid[v]) if k == "run" and isinstance(v, str) and v in byid else expand(v) for k, v in x.items()}
        return [expand(v) for v in x] if isinstance(x, list) else x

    def form(p):
        # (the run references first: a process named "main/x" is no part of "main")
        return prefixed(expand(p), p["id"] + "/", "§")
    return {i[len(uri) + 1:]: normal(prefixed(form(p), uri + "#", "§")) for i, p in byid.items()}


def process_of_file(path, version):
    p = salad_ref.resolve(path, version)
    uri = salad_ref.file_uri(path)
    p = tree.absolute(p, uri)
    meta = {k: v for k, v in p.items() if k in ("cwlVersion", "$namespaces", "$schemas")}

    def expand(x):
        if isinstance(x, dict):
            return {k: process_of_file(unquote(v[7:]), version)[0] if k == "run" and isinstance(v, str) and v.startswith("file://")
                    else expand(v) for k, v in x.items()}
        return [expand(v) for v in x] if isinstance(x, list) else x
    return expand(prefixed({k: v for k, v in p.items() if k not in meta or k == "cwlVersion"}, uri + "#", "§")), meta


def normal(p):
    return docs.canon(tree.normal(p, short=lambda s: s))


def absolute_style(g, rng, doc, path, version):
    """The same document with all names absolute, as cwltool writes it."""
    with open(path, "w", encoding="utf-8") as h:
        json.dump(doc, h, ensure_ascii=False)
    ps = salad_ref.resolve(path, version)
    uri = salad_ref.file_uri(path)
    ps = prefixed(ps, uri + "#", "#")
    defs, owner = {}, {}
    if rng.random() < 0.5:      # types that came from other files
        tree.typedefs(ps, defs)
        for n in defs:
            new = "#%s/%s" % (rng.choice(["types.yml", "t2.yml", "types.yml"]), n.rsplit("/", 1)[-1])
            ps = tree.rewrite(ps, lambda s: new + s[len(n):] if s == n or s.startswith(n + "/") else s)
    if rng.random() < 0.6:
        ps = [dict(p, id=p["id"]) for p in sorted(ps, key=lambda p: rng.random())]
    return {"cwlVersion": version, "$graph": ps}, bool(defs)


def by_cwltool(g, rng, d, version):
    """A document spread over files, packed by cwltool."""
    from cwltool.context import LoadingContext
    from cwltool.load_tool import fetch_document, resolve_and_validate_document
    from cwltool.pack import pack
    t = tree.Tree(rng, version, p_file=0.9, p_import=0, p=0, hash_refs=0, version_in_parts=1)
    doc = gen.document(g, "Workflow")
    c = t.process(doc, "main.cwl", True)
    t.files["main.cwl"] = c
    for f, x in t.files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            json.dump(x, h)
    docs.setup(d)
    with common.quiet():
        lc = LoadingContext({"fast_parser": False, "do_validate": True})
        lc, obj, uri = fetch_document(os.path.join(d, "main.cwl"), lc)
        lc, uri = resolve_and_validate_document(lc, obj, uri, preprocess_only=True)
        out = json.loads(json.dumps(pack(lc, uri)))
    return out


FOREIGN = ["keep-me_0.cwl", "notes.txt", "older.yml", "old/part_0.cwl"]
FOREIGN_TEXT = "class: CommandLineTool\ninputs: []\n"


def previous(rng, path, out, ofmt, main, pretty, r):
    """The directory as another, longer split and its user left it."""
    try:
        with common.quiet(), open(path, encoding="utf-8") as h:
            graph_split.graph_split(h, graph_split.Path(out), rng.choice(["json", "yaml", ofmt]), main, pretty)
    except Exception:
        os.makedirs(out, exist_ok=True)
    for f in snapshot(out):
        with open(os.path.join(out, f), "a", encoding="utf-8") as h:
            h.write("\n" + rng.choice(["}{ - :\n", "x: [1, 2]\nclass: Nothing\n"]) * 4)
    os.makedirs(out + "/old", exist_ok=True)
    for f in FOREIGN:
        with open(os.path.join(out, f), "w") as h:
            h.write(FOREIGN_TEXT)


def one(version, rng, g, d, r, style):
    src, out = os.path.join(d, "src"), os.path.join(d, rng.choice(["out", "src/out", "o ut"]))
    os.makedirs(src)
    docs.setup(src)
    path = os.path.join(src, rng.choice(["packed.cwl", "p.cwl", "a b.cwl", "p.json"]))
    shared = False
    if style == "cwltool":
        os.makedirs(d + "/tree")
        try:
            doc = by_cwltool(g, rng, d + "/tree", version)
        except Exception as e:
            r.see("cwltool_rejected")
            return
        names = [p["id"] for p in doc["$graph"]]
        if "$graph" not in doc or len(names) < 2:
            return
    else:
        doc, names = docs.packed(g, rng, hostile=rng.random() < 0.4)
        if rng.random() < 0.15:
            new = "../evil%d" % rng.randrange(3)
            doc = tree.rewrite(doc, lambda s: s.replace(names[-1], new) if s in (names[-1], "#" + names[-1]) else s)
        if style == "plain" and rng.random() < 0.5:
            sugar = gen.Sugar(rng, version, p=rng.choice([0.2, 0.6]))
            doc["$graph"] = [sugar.proc(p) for p in doc["$graph"]]
            for k in sugar.used:
                r.see("shorthand " + k)
            style = "shorthands"
        if style == "absolute":
            try:
                doc, shared = absolute_style(g, rng, doc, path, version)
            except Exception as e:
                r.see("reference_rejected")
                return
    if rng.random() < 0.2 and "$namespaces" not in doc:
        doc["$namespaces"] = {"ex": gen.EXT}
    if rng.random() < 0.2:
        doc["$schemas"] = ["ont.ttl"]
    if rng.random() < 0.2:
        doc["$graph"][0]["label"] = "2020-01-01"
    fmt = "json" if path.endswith(".json") else rng.choice(["yaml", "json"])
    text = json.dumps(doc, indent=1, ensure_ascii=False) if fmt == "json" else \
        re.sub(r"'(2[0-9-]{9})'", r"\1", gen.write_yaml(doc, rng))
    with open(path, "w", encoding="utf-8") as h:
        h.write(text)
    info = dict(version=version, style=style, doc=doc)
    try:
        want = processes_of_packed(path, version)
    except Exception as e:
        r.see("reference_rejected")
        return
    if rng.random() < 0.5:
        os.makedirs(out)
    main = rng.choice([None, None, "wf", "wf.cwl", "main.cwl", [n for n in want][-1].replace("/", "_")])
    ofmt, pretty = rng.choice([("json", False), ("yaml", False), ("yaml", False), ("yaml", True)])
    try:
        with common.quiet():
            load_document_by_uri(path, load_all=True)
        loadable = True
    except Exception:
        loadable = False
    info.update(main=main, format=ofmt, pretty=pretty)
    used = rng.random() < 0.4
    if used:
        previous(rng, path, out, ofmt, main, pretty, r)
    before = snapshot(d)
    with common.quiet():
        try:
            args = ["-C", out, "-f", ofmt, path] + (["-m", main] if main else []) + (["-p"] if pretty else [])
            if rng.random() < 0.07 and all(p.get("id", "").isascii() for p in doc["$graph"]):
                r.see("as a command")
                p = common.command("cwl_utils.graph_split", args, ascii_locale=rng.random() < 0.7)
                if p.returncode:
                    r.violation("command-fails", error=p.stderr.decode(errors="replace")[-1500:], **info)
                    return
            elif rng.random() < 0.5:
                if graph_split.run(args) != 0:
                    r.violation("cli-status", **info)
            else:
                with open(path, encoding="utf-8") as h:
                    graph_split.graph_split(h, graph_split.Path(out), ofmt, main, pretty)
        except Exception as e:
            import traceback
            r.violation("split-fails", error="%s: %s" % (type(e).__name__, str(e)[:1000]), where=traceback.format_exc()[-900:], **info)
            return
    r.see("split " + style)
    r.see("format " + ofmt)
    r.case(text, any("run" in json.dumps(p) for p in doc["$graph"]), {"style": style, "names": list(want), "format": ofmt})
    after = snapshot(d, {out})
    before = {k: v for k, v in before.items() if not k.startswith(os.path.relpath(out, d) + "/")}
    if after != before:
        r.violation("files-outside", changed=[k for k in set(before) | set(after) if before.get(k) != after.get(k)], **info)
    if not os.path.isdir(out):
        r.violation("no-output-directory", **info)
        return
    if used:
        r.see("split to a used directory")
        now = {f: open(os.path.join(out, f)).read() if os.path.exists(os.path.join(out, f)) else None for f in FOREIGN}
        if any(x != FOREIGN_TEXT for x in now.values()):
            r.violation("other-files-changed", now=now, **info)
        for f in FOREIGN:
            if now[f] is not None:
                os.remove(os.path.join(out, f))
    made = sorted(snapshot(out))
    cwl = [f for f in made if f.endswith(".cwl")]
    info["made"] = made
    if "main" in want:
        mainfile = re.sub(r"\.cwl$", "", main or "unpacked_" + os.path.basename(path)) + ".cwl"
        if mainfile not in cwl:
            r.violation("main-file-name", expected=mainfile, **info)
            return
    if len(cwl) != len(want):
        r.violation("one-file-per-process", processes=list(want), **info)
        return
    os.rename(path, d + "/gone")
    got = {}
    for f in cwl:
        p = os.path.join(out, f)
        info["file"] = f
        try:
            x, meta = process_of_file(p, version)
        except Exception as e:
            with open(p) as h:
                r.violation("part-invalid", error=str(e)[-2000:], text=h.read()[:3000], **info)
            return
        if meta.get("cwlVersion") != version:
            r.violation("part-version", got=meta.get("cwlVersion"), **info)
        with open(p, encoding="utf-8") as h:
            text = h.read()
        try:
            raw = salad_ref.yaml_load(text)
        except Exception as e:
            r.violation("part-invalid", error=str(e)[-2000:], text=text[:3000], **info)
            return
        for k in ("$namespaces", "$schemas"):
            w = doc.get(k)
            if k == "$schemas" and w:
                w = ["file://" + os.path.normpath(os.path.join(src, s)) if "://" not in s else s for s in w]
                h = [unquote(s) if "://" in s else "file://" + os.path.normpath(os.path.join(out, s)) for s in raw.get(k) or []]
            else:
                h = raw.get(k)
            if (w or None) != (h or None):
                r.violation("part-" + k.strip("$"), expected=w, got=h, **info)
        got[f] = normal(x)
        r.see("parts compared")
        try:
            with common.quiet():
                if loadable:
                    load_document_by_uri(p)
                    r.see("parts loaded")
        except Exception as e:
            r.violation("part-not-loadable", error=str(e)[-1500:], **info)
            return
    info.pop("file", None)
    if style == "shorthands":       # the reference reader does not keep the order of maps
        want, got = docs.unordered(want), docs.unordered(got)
    if "main" in want:
        df = objdump.diff(want["main"], got[mainfile])
        if df:
            r.violation("main-differs", diff=df, **info)
            return
        r.see("main compared")
    left = dict(got)
    for n, w in want.items():
        for f in left:
            if not objdump.diff(w, left[f]):
                del left[f]
                break
        else:
            best = min((objdump.diff(w, x) for x in left.values()), key=len)
            r.violation("process-differs", process=n, closest=best, **info)
            return


def chunk(item, r):
    version, k, n = item
    rng = C.rng("split", version, k)
    g = gen.Gen(rng, version, max_depth=rng.choice([1, 2, 2]), p_opt=rng.choice([0.1, 0.25]))
    for i in range(n):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(version, rng, g, d, r, rng.choice(["plain", "plain", "absolute", "absolute", "cwltool"]))
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    c.need("main compared", 200)
    c.need("parts compared", 500)
    c.need("split absolute", 80)
    c.need("split to a used directory", 100)
    c.need("split plain", 30)
    c.need("split shorthands", 30)
    c.need("shorthand map:requirements", 10)
    c.need("shorthand map:inputs", 10)
    c.need("shorthand map:steps", 5)
    c.need("split cwltool", 30)
    c.need("as a command", 8)
    c.add(common.pool_run(chunk, [(v, k, 4) for k in range(scale(40, 1500)) for v in salad_ref.VERSIONS]))


common.main(C, body)
