"""C20 stream shorthands and bounded reads: conversions compared with a model, some converted tools run for real; files around the limit."""
import copy, hashlib, importlib, io, json, logging, os, random, shutil, tempfile
from urllib.parse import unquote
import common, docs, gen, objdump, salad_ref
from common import scale
from cwl_utils.parser import load_document_by_uri, save
from cwl_utils.parser import utils as U
from schema_salad.exceptions import ValidationException
from cwl_utils.errors import WorkflowException

logging.disable(logging.CRITICAL)
C = common.Check("C20", "one command line tool with stream shorthands converted, or one file read with the limit; distinct by content; "
                 "non-trivial = a shorthand is there, or the file has multi-byte characters or is near the limit")
NAMES = ["in", "x", "my-file", "in.txt", "a.b-c", "é", "it's", "f1", "_x", "0"]
FILES = ["out.txt", "$(inputs.x.basename).out", "a b.log", "é.txt", "sub.dir.txt", "${return 'x'}", "o[1].txt"]


def flat(out):
    return json.loads(json.dumps(out))


def convert(i, r):
    rng = C.rng("convert", i)
    version = salad_ref.VERSIONS[i % 3]
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    g = gen.Gen(rng, version, max_depth=1, p_opt=rng.choice([0.05, 0.2]))
    doc = gen.document(g, "CommandLineTool")
    for k in ("stdin", "stdout", "stderr"):
        doc.pop(k, None)
        if rng.random() < (0.5 if k != "stdin" else 0.15):
            doc[k] = rng.choice(FILES)
    for p in doc["outputs"]:    # shorthands the generator made
        if p.get("type") in ("stdout", "stderr"):
            p["type"] = "int"
            p.pop("outputBinding", None)
    for p in doc["inputs"]:
        if p.get("type") == "stdin":
            p["type"] = "int"
    for j in range(rng.choice([0, 1, 1, 2, 3])):
        o = {"id": "sh%d" % j, "type": rng.choice(["stdout", "stderr"])}
        if rng.random() < 0.3:
            o["doc"] = "d"
        if rng.random() < 0.2:
            o["streamable"] = True
        if rng.random() < 0.2:
            o["format"] = "http://edamontology.org/format_2330"
        if rng.random() < 0.07:
            o["outputBinding"] = {"glob": "x"}
        doc["outputs"].insert(rng.randint(0, len(doc["outputs"])), o)
    if version != "v1.0":
        for n in rng.sample(NAMES, rng.choice([0, 1, 1, 1, 2])):
            o = {"id": n, "type": "stdin"}
            if rng.random() < 0.2:
                o["label"] = "l"
            if rng.random() < 0.07:
                o["inputBinding"] = {"position": 1}
            doc["inputs"].insert(rng.randint(0, len(doc["inputs"])), o)
    path = os.path.join(d, "tool.cwl")
    with open(path, "w", encoding="utf-8") as h:
        json.dump(doc, h, ensure_ascii=False)
    try:
        tool = docs.load(path)
        again = docs.load(path)
    except Exception as e:
        r.see("not loadable")
        return
    before, id_before = objdump.dump(tool), None
    outs = [o for o in doc["outputs"] if o.get("type") in ("stdout", "stderr")]
    ins = [x for x in doc["inputs"] if x.get("type") == "stdin"]
    wrong = any("outputBinding" in o for o in outs) or any("inputBinding" in x for x in ins) or \
        (ins and "stdin" in doc) or len(ins) > 1
    info = dict(version=version, doc=doc)
    r.case(doc, bool(outs or ins), {"outputs": outs, "inputs": ins, "version": version})
    try:
        with common.quiet():
            U.convert_stdstreams_to_files(tool)
    except ValidationException as e:
        r.see("conflict reported")
        if not wrong:
            r.violation("conversion-refused", error=str(e)[:600], **info)
        return
    if wrong:
        r.violation("conflict-accepted", **info)
        return
    got = objdump.dump(tool)
    want = copy.deepcopy(before)
    for k in ("stdout", "stderr"):
        mine = [o for o in outs if o.get("type") == k]
        if mine and k not in doc:
            name = got.get(k)
            r.see("generated name")
            if not isinstance(name, str) or not name or "/" in name or any(c in name for c in "*?[$("):
                r.violation("generated-name", name=name, stream=k, **info)
                return
            want[k] = name
        for o in want["outputs"]:
            if o.get("type") == k:
                r.see("shorthand " + k)
                o["type"] = "File"
                o["outputBinding"] = {"class": "?", "glob": want[k]}
    for x in want["inputs"]:
        if x.get("type") == "stdin":
            r.see("shorthand stdin")
            x["type"] = "File"
            n = ins[0]["id"]
            ok = {"$(inputs['%s'].path)" % n.replace("'", "\\'"), '$(inputs["%s"].path)' % n}
            if n.replace("_", "a").isalnum():
                ok.add("$(inputs.%s.path)" % n)
            if got.get("stdin") not in ok:
                r.violation("stdin-not-wired", stdin=got.get("stdin"), **info)
                return
            want["stdin"] = got["stdin"]

    def strip(x):
        x = copy.deepcopy(x)
        for o in x["outputs"]:
            if "outputBinding" in o:
                o["outputBinding"] = {k: v for k, v in o["outputBinding"].items() if k != "class"}
        return x
    df = objdump.diff(strip(want), strip(got))
    if df:
        r.violation("conversion-differs", diff=df, **info)
        return
    if got.get("stdout") and got.get("stdout") == got.get("stderr") and not (doc.get("stdout") and doc.get("stderr")):
        r.violation("generated-names-equal", **info)
    r.see("converted")
    with common.quiet():
        U.convert_stdstreams_to_files(tool)
        U.convert_stdstreams_to_files(again)
    if objdump.dump(tool) != got:
        r.violation("second-conversion", diff=objdump.diff(got, objdump.dump(tool)), **info)
    # (types without a name get a random one when loaded, which enters the generated names)
    df = objdump.diff(got, objdump.dump(again)) if "_:" not in json.dumps(got) else []
    r.see("stable", not df)
    if df:
        r.violation("not-stable", diff=df, **info)
    # a tool of other content, otherwise the same, gets another name
    if any(o.get("type") == k and k not in doc for o in outs for k in ("stdout", "stderr")):
        doc2 = copy.deepcopy(doc)
        doc2["doc"] = str(doc.get("doc")) + "x"
        with open(path, "w", encoding="utf-8") as h:
            json.dump(doc2, h, ensure_ascii=False)
        other = docs.load(path)
        with common.quiet():
            U.convert_stdstreams_to_files(other)
        o2 = objdump.dump(other)
        for k in ("stdout", "stderr"):
            if k not in doc and k in got:
                r.see("names of two tools")
                if o2.get(k) == got[k]:
                    r.violation("same-name-for-other-content", **info)
    try:    # the converted tool is valid CWL
        with open(path, "w") as h:
            json.dump(save(tool, base_url=tool.loadingOptions.fileuri), h)
        docs.load(path)
        r.see("saved and loaded")
    except Exception as e:
        r.violation("converted-invalid", error=str(e)[-800:], **info)
    shutil.rmtree(d)


def execute(i, r):
    """A converted tool does what its shorthands say."""
    rng = C.rng("run", i)
    version = salad_ref.VERSIONS[i % 3]
    import cwltool.factory
    d = tempfile.mkdtemp(dir=C.scratch)
    text = rng.choice(["héllo\n", "", "x" * 70000, "a b\nc"])
    with open(d + "/input.txt", "w", encoding="utf-8") as h:
        h.write(text)
    name = rng.choice([n for n in NAMES if n != "it's"])
    tool = {"cwlVersion": version, "class": "CommandLineTool", "baseCommand": ["sh", "-c", "echo errors >&2; cat"],
            "inputs": [{"id": name, "type": "stdin"}], "outputs": [{"id": "o", "type": "stdout"}, {"id": "e", "type": "stderr"}]}
    if version == "v1.0":
        tool["inputs"] = [{"id": "x", "type": "File"}]
        tool["stdin"] = "$(inputs.x.path)"
        name = "x"
    for k in ("stdout", "stderr"):
        if rng.random() < 0.5:
            tool[k] = rng.choice(["%s.txt", "a %s", "$(inputs[\"%s\"].nameroot)-%%s" % name]) % k
    with open(d + "/tool.cwl", "w", encoding="utf-8") as h:
        json.dump(tool, h, ensure_ascii=False)
    obj = docs.load(d + "/tool.cwl")
    with common.quiet():
        U.convert_stdstreams_to_files(obj)
    with open(d + "/converted.cwl", "w", encoding="utf-8") as h:
        json.dump(save(obj, base_url=obj.loadingOptions.fileuri), h, ensure_ascii=False)
    info = dict(version=version, tool=tool, converted=open(d + "/converted.cwl").read())
    r.case(tool, True, tool)
    old = os.getcwd()
    os.mkdir(d + "/w")
    os.chdir(d + "/w")
    try:
        from cwltool.context import LoadingContext, RuntimeContext
        rc = RuntimeContext({"outdir": d + "/w", "tmpdir_prefix": d + "/t", "tmp_outdir_prefix": d + "/to", "use_container": False})
        f = cwltool.factory.Factory(runtime_context=rc)
        with common.quiet():
            out = f.make(d + "/converted.cwl")(**{name: {"class": "File", "location": "file://" + d + "/input.txt"}})
    except Exception as e:
        r.violation("converted-does-not-run", error="%s: %s" % (type(e).__name__, str(e)[-800:]), **info)
        return
    finally:
        os.chdir(old)
    r.see("run for real")
    for k, t in (("o", text), ("e", "errors\n")):
        with open(unquote(out[k]["location"][7:]), encoding="utf-8") as h:
            if h.read() != t:
                r.violation("stream-content", stream=k, **info)
    shutil.rmtree(d)


CHARS = ["a", "é", "€", "😀", "\n", "\r\n", "\0", "\ufeff", "x"]


def read(i, r):
    rng = C.rng("read", i)
    limit = 64 * 1024
    for _ in range(40):
        near = rng.random() < 0.8
        size = limit + rng.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 100, limit]) if near else rng.choice([0, 1, 7, 1000, 30000])
        chars = rng.choice([CHARS, ["a"], ["é"], ["€"], ["😀"], ["a", "😀"]])
        head = "".join(rng.choice(chars) for _ in range(min(size, 200)))
        unit = rng.choice(chars)
        body = head.encode() + unit.encode() * ((size + 8) // len(unit.encode()))
        # cut at a character, then fill up to the size
        t = body[:max(0, size - 4)].decode("utf-8", "ignore")
        while True:
            c = rng.choice(chars)
            if len((t + c).encode()) > size:
                break
            t += c
        data = (t + "a" * (size - len(t.encode()))).encode() if rng.random() < 0.5 else t.encode()
        r.case(hashlib.sha1(data).hexdigest(), near or len(t) != len(data), {"size": len(data), "characters": len(t)})
        f = tempfile.TemporaryFile(dir=C.scratch) if rng.random() < 0.5 else io.BytesIO()
        f.write(data)
        f.seek(0)
        for v in ("0", "1", "2"):
            M = importlib.import_module("cwl_utils.parser.cwl_v1_%s_utils" % v)
            info = dict(version="v1." + v, size=len(data), tail=data[max(0, limit - 6):limit + 6].hex())
            fit = len(data) <= limit
            for fn, want in ((M.content_limit_respected_read_bytes, data[:limit]),
                             (M.content_limit_respected_read, data[:limit].decode("utf-8", "ignore"))):
                f.seek(0)
                try:
                    got = fn(f)
                except WorkflowException as e:
                    r.see("too large reported")
                    if fit or v != "2":
                        r.violation("read-refused", function=fn.__name__, error=str(e), **info)
                    continue
                except Exception as e:
                    r.violation("read-fails", function=fn.__name__, error="%s: %s" % (type(e).__name__, e), **info)
                    continue
                r.see("read")
                r.see("truncated", not fit)
                if not fit and v == "2":
                    r.violation("too-large-accepted", function=fn.__name__, **info)
                elif got != want or type(got) is not type(want):
                    r.violation("content-differs", function=fn.__name__, got=len(got), expected=len(want), **info)


def body(c):
    for n, m in (("converted", 300), ("generated name", 150), ("shorthand stdin", 100), ("shorthand stdout", 150), ("shorthand stderr", 150),
                 ("conflict reported", 30), ("names of two tools", 100), ("run for real", 30), ("read", 3000), ("truncated", 500),
                 ("too large reported", 400)):
        c.need(n, m)
    c.add(common.pool_run(convert, range(scale(900, 20000))))
    c.add(common.pool_run(execute, range(scale(60, 400))))
    c.add(common.pool_run(read, range(scale(40, 800))))


common.main(C, body)
