"""C18: JSON schemas generated for the inputs of random processes, applied to conforming and to damaged job objects."""
import copy, http.server, json, os, shutil, sys, tempfile, threading, urllib.parse
import common, gen
from common import Check, scale
import jsonschema
from cwl_utils import inputs_schema_gen as G
from cwl_utils.parser import load_document_by_uri

C = Check("C18", "random input types of three versions, their schemas judged by job objects of known validity",
          assumptions=["jsonschema implements draft 7", "extra keys of File, record and job objects, integral floats and integers beyond 32 bits are not judged",
                       "enum symbols with '/', '#' or ':' are left out"])
PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any"]
NAMES = ["a", "b", "in", "my-name", "my_name", "myName", "MyName", "file", "any", "directory", "Input_array_schema", "x.y", "a b", "50%", "é", "n1", "n-1",
         "type", "name", "items", "UPPER", "camelCase", "properties", "null", "q_uite-long_name", "%41", "~x", "~1"]
TNAMES = NAMES + ["File", "Any", "Directory", "record", "enum", "rec-type", "rec_type", "RecType", "Rectype"]
SYMBOLS = ["a", "b", "c-d", "C_D", "1", "true", "x y", "null", "é", "50%", "%41", "a.b", "A"]


class Types:
    """Types: a list of alternatives; ('p', name) ('enum', symbols) ('array', type) ('record', fields) ('ref', k)."""

    def __init__(self, rng, version):
        self.rng, self.version = rng, version
        self.table = []        # (alternative, where, name)
        self.used = {}

    def rand(self, depth=0):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 2, 3, 4]) if depth < 2 else rng.choice([1, 1, 1, 1, 2, 3])
        out = []
        for _ in range(n):
            a = self.alt(depth)
            if a not in out:
                out.append(a)
        if len(out) > 1 and rng.random() < 0.3 and ("p", "null") not in out:
            out.insert(rng.randrange(len(out) + 1), ("p", "null"))
        return out

    def alt(self, depth):
        rng = self.rng
        k = rng.random()
        if self.table and k < 0.25:
            return ("ref", rng.randrange(len(self.table)))
        if depth > 3 or k < 0.6 + 0.06 * depth:
            return ("p", rng.choice(PRIMS))
        return self.complex(depth)

    def complex(self, depth):
        rng = self.rng
        k = rng.random()
        if k < 0.3:
            return ("enum", tuple(rng.sample(SYMBOLS, rng.choice([1, 2, 3, 5]))))
        if k < 0.6:
            return ("array", tuple(self.rand(depth + 1)))
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 3, 5]))
        return ("record", tuple((n, tuple(self.rand(depth + 1))) for n in names))

    def named(self, where):
        rng = self.rng
        taken = self.used.setdefault(where, set())
        if self.table and rng.random() < 0.3:       # the same name, or nearly, elsewhere
            n = rng.choice(self.table)[2]
            n = rng.choice([n, n, n.replace("-", "_"), n.lower(), n.capitalize()])
        else:
            n = rng.choice(TNAMES)
        if n in taken:
            return
        taken.add(n)
        a = self.complex(1)
        while a[0] == "array" and (self.version == "v1.0" or rng.random() < 0.5):
            a = self.complex(1)
        self.table.append((a, where, n))

    # --- spelling
    def ref(self, k, here):
        a, where, n = self.table[k]
        f = "" if where == here else urllib.parse.quote(os.path.relpath(where, os.path.dirname(here) or "."))
        return f + "#" + n

    def spell(self, t, here, dsl=True):
        rng = self.rng
        t = list(t)
        if dsl and len(t) == 2 and ("p", "null") in t and rng.random() < 0.5:
            o = [x for x in t if x != ("p", "null")][0]
            s = self.spell_alt(o, here, True)
            if isinstance(s, str) and not s.endswith(("?", "[]")):
                return s + "?"
            if isinstance(s, str) and s.endswith("[]"):
                return s + "?"
        js = [self.spell_alt(a, here, dsl) for a in t]
        return js[0] if len(js) == 1 and rng.random() < 0.9 else js

    def spell_alt(self, a, here, dsl=True):
        rng = self.rng
        if a[0] == "p":
            return a[1]
        if a[0] == "ref":
            return self.ref(a[1], here)
        if a[0] == "array":
            if dsl and len(a[1]) == 1 and a[1][0][0] in ("p", "ref") and rng.random() < 0.6:
                return self.spell_alt(a[1][0], here) + "[]"
            o = {"type": "array", "items": self.spell(a[1], here, False)}
            if rng.random() < 0.1:
                o["label"] = "a label"
            return o
        if a[0] == "enum":
            o = {"type": "enum", "symbols": list(a[1])}
        else:
            fs = [(n, self.spell(t, here)) for n, t in a[1]]
            if fs and rng.random() < 0.4:
                fields = {n: {"type": t} if isinstance(t, (dict, list)) or rng.random() < 0.5 else t for n, t in fs}
            else:
                fields = [{"name": n, "type": t} for n, t in fs]
                for f in fields:
                    if rng.random() < 0.1:
                        f["doc"] = "a field"
            o = {"type": "record", "fields": fields}
        if rng.random() < 0.2 and a[0] in ("record", "enum"):
            self.count = getattr(self, "count", 0) + 1
            o["name"] = "anon%d" % self.count
        return o

    # --- values
    def nullable(self, t):
        return ("p", "null") in t

    def value(self, t, depth=0):
        rng = self.rng
        alts = list(t)
        if depth > 4 and self.nullable(t):
            return None
        return self.of_alt(rng.choice(alts), depth)

    def of_alt(self, a, depth):
        rng = self.rng
        if a[0] == "ref":
            return self.of_alt(self.table[a[1]][0], depth)
        if a[0] == "enum":
            return rng.choice(a[1])
        if a[0] == "array":
            return [self.value(a[1], depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        if a[0] == "record":
            o = {}
            for n, t in a[1]:
                v = self.value(t, depth + 1)
                if v is None and self.nullable(t) and rng.random() < 0.6:
                    continue
                o[n] = v
            return o
        return prim(rng, a[1])

    def ok(self, t, v):
        """True, False, or None when the rules leave it open."""
        rs = [self.ok_alt(a, v) for a in t]
        return True if True in rs else None if None in rs else False

    def ok_alt(self, a, v):
        if a[0] == "ref":
            return self.ok_alt(self.table[a[1]][0], v)
        if a[0] == "enum":
            return isinstance(v, str) and v in a[1]
        if a[0] == "array":
            return every(self.ok(a[1], x) for x in v) if isinstance(v, list) else False
        if a[0] == "record":
            if not isinstance(v, dict):
                return False
            r = every(self.ok(t, v.get(n)) for n, t in a[1])
            return None if r and set(v) - {n for n, _ in a[1]} else r
        p = a[1]
        if p == "null":
            return v is None
        if p == "Any":
            return v is not None
        if p == "boolean":
            return isinstance(v, bool)
        if p == "string":
            return isinstance(v, str)
        if isinstance(v, bool):
            return False
        if p in ("int", "long"):
            return isinstance(v, int)
        if p in ("float", "double"):
            return isinstance(v, (int, float))
        return ok_file(v, p)


def every(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


FILE = {"location": str, "path": str, "basename": str, "dirname": str, "nameroot": str, "nameext": str, "checksum": str, "size": int,
        "contents": str, "format": str, "secondaryFiles": list}
DIRECTORY = {"location": str, "path": str, "basename": str, "listing": list}


def ok_file(v, p):
    if not isinstance(v, dict) or v.get("class") != p:
        return False
    keys = FILE if p == "File" else DIRECTORY
    for k, x in v.items():
        if k == "class":
            continue
        if k not in keys:
            return None
        if isinstance(x, bool) or not isinstance(x, keys[k]):
            return False
        if keys[k] is list:
            r = every(True if True in (a, b) else None if None in (a, b) else False
                      for y in x for a, b in [(ok_file(y, "File"), ok_file(y, "Directory"))])
            if r is not True:
                return r
    return True


def prim(rng, p, depth=0):
    if p == "Any":
        p = rng.choice([x for x in PRIMS if x not in ("null", "Any")] + ["list", "dict"])
    if p == "list":
        return rng.choice([[], [1, "a"], [[None]], [{"x": 1}]])
    if p == "dict":
        return rng.choice([{}, {"x": 1}, {"a": None, "b": [1.5]}])
    if p == "null":
        return None
    if p == "boolean":
        return rng.random() < 0.5
    if p in ("int", "long"):
        return rng.choice([0, 1, -1, 7, 2147483647, -2147483648] + ([2 ** 40, -2 ** 60] if p == "long" else []))
    if p in ("float", "double"):
        return rng.choice([0, 3, -1, 1.5, -0.25, 1e-10, 1.5e300])
    if p == "string":
        return rng.choice(["", "x", "a b", "null", "1", "true", "é\n", rng.choice(SYMBOLS)])
    o = {"class": p}
    keys = FILE if p == "File" else DIRECTORY
    for k in ["location"] + rng.sample(sorted(keys), rng.choice([0, 0, 1, 3, len(keys)])):
        if keys[k] is list:
            o[k] = [prim(rng, rng.choice(["File", "Directory"]), depth + 1) for _ in range(rng.choice([0, 1, 2]) if depth < 2 else 0)]
        else:
            o[k] = rng.choice([0, 5, 10 ** 12]) if keys[k] is int else rng.choice(["x", "http://example.com/f", "a/b.txt", "é"])
    return o


def damage(rng, v):
    """A copy of v with one change somewhere."""
    v = copy.deepcopy(v)
    spots = []

    def walk(x, put, drop):
        spots.append((x, put, drop))
        if isinstance(x, dict):
            for k in x:
                walk(x[k], lambda n, x=x, k=k: x.__setitem__(k, n), lambda x=x, k=k: x.pop(k))
        elif isinstance(x, list):
            for i in range(len(x)):
                walk(x[i], lambda n, x=x, i=i: x.__setitem__(i, n), lambda x=x, i=i: x.pop(i))

    box = [v]
    walk(v, lambda n: box.__setitem__(0, n), None)
    x, put, drop = rng.choice(spots)
    k = rng.random()
    if k < 0.2 and drop:
        drop()
    elif k < 0.3:
        put([x])
    elif k < 0.35 and isinstance(x, list) and x:
        put(x[0])
    elif k < 0.45:
        put(None)
    elif k < 0.5:
        put({})
    elif k < 0.55 and isinstance(x, str):
        put(x + rng.choice(["x", " ", "s"]))
    elif k < 0.6 and isinstance(x, dict) and "class" in x:
        x["class"] = rng.choice(["File", "Directory", "file", 1])
    else:
        put(prim(rng, rng.choice(PRIMS)))
    return box[0]


# --- documents

def build(rng, d):
    version = rng.choice(["v1.0", "v1.1", "v1.2"])
    t = Types(rng, version)
    main = rng.choice(["tool.cwl", "tool.cwl", "my tool.cwl", "sub/tool.cwl"])
    files = [main]
    if rng.random() < 0.5:
        files += rng.sample(["types.yml", "sub/types.yml", "other.yml"], rng.choice([1, 2]))
    for _ in range(rng.choice([0, 0, 1, 2, 4, 8, 12])):
        t.named(rng.choice(files))
    # only types of earlier files are seen by the table order, so imports never go in circles within one requirement
    ins = []
    for n in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4, 6])):
        ty = t.rand()
        i = {"id": n, "type": t.spell(ty, main)}
        default = None
        if rng.random() < 0.25:
            v = t.value(ty)
            default = v is not None
            i["default"] = v
        doc = rng.choice([None, None, "some text", "", ["two", "lines"], "é: {}"])
        if doc is not None:
            i["doc"] = doc
        if rng.random() < 0.2:
            i["label"] = "a label"
        ins.append((n, ty, i, bool(default), doc))
    stdin = None
    cls = rng.choice(["CommandLineTool", "CommandLineTool", "Workflow", "ExpressionTool"] + (["Operation"] if version == "v1.2" else []))
    inputs = [i for _, _, i, _, _ in ins]
    if cls == "CommandLineTool" and version != "v1.0" and rng.random() < 0.15 and "stdin_in" not in NAMES:
        inputs.append({"id": "stdin_in", "type": "stdin"})
        ins.append(("stdin_in", [("p", "File")], inputs[-1], False, None))
    if rng.random() < 0.5:
        inputs = {}
        for n, ty, i, _, _ in ins:
            j = {k: v for k, v in i.items() if k != "id"}
            if list(j) == ["type"] and (isinstance(j["type"], str) or isinstance(j["type"], list) and False) and rng.random() < 0.7:
                j = j["type"]
            inputs[n] = j
    doc = {"cwlVersion": version, "class": cls, "inputs": inputs, "outputs": []}
    if cls == "Workflow":
        doc["steps"] = []
    if cls == "CommandLineTool":
        doc["baseCommand"] = "true"
    if cls == "ExpressionTool":
        doc["expression"] = "${return {};}"
    reqs = []
    types = []
    contents = {}
    for k, (a, where, n) in enumerate(t.table):
        s = t.spell_alt(a, where, False)
        s["name"] = n
        if version != "v1.0" and rng.random() < 0.2:
            s["doc"] = "a type"
        contents.setdefault(where, []).append(s)
    # the table order is kept over all files as far as one requirement can express it
    done = set()
    for k, (a, where, n) in enumerate(t.table):
        if where == main:
            types.append(contents[main].pop(0))
        elif where not in done:
            done.add(where)
            types.append({"$import": os.path.relpath(where, os.path.dirname(main) or ".")})
    for where in done:
        os.makedirs(os.path.dirname(os.path.join(d, where)), exist_ok=True)
        c = contents[where]
        with open(os.path.join(d, where), "w") as h:
            h.write(gen.write_yaml(c[0] if len(c) == 1 and rng.random() < 0.7 else c, rng))
    if types or rng.random() < 0.1:
        if rng.random() < 0.5:
            reqs.append({"class": "InlineJavascriptRequirement"})
        if types:
            reqs.append({"class": "SchemaDefRequirement", "types": types})
    if reqs:
        if rng.random() < 0.5:
            rng.shuffle(reqs)
            doc["requirements"] = reqs
        else:
            doc["requirements"] = {q["class"]: {k: v for k, v in q.items() if k != "class"} for q in reqs}
    if rng.random() < 0.2:
        doc["hints"] = [{"class": "ResourceRequirement", "coresMin": 1}]
    frag = ""
    if rng.random() < 0.15 and not t.table:
        v = doc.pop("cwlVersion")
        doc["id"] = "main"
        other = {"class": "ExpressionTool", "id": "other", "inputs": {"zzz": "int"}, "outputs": [], "expression": "$({})"}
        g = [doc, other]
        rng.shuffle(g)
        doc = {"cwlVersion": v, "$graph": g}
    path = os.path.join(d, main)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as h:
        h.write(gen.write_yaml(doc, rng) if rng.random() < 0.5 else json.dumps(doc))
    return t, ins, doc, path, version


def refs(x, out, key=None):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref" and isinstance(v, str):
                out.append(v)
            elif k not in ("enum", "const", "default", "description"):
                refs(v, out)
    elif isinstance(x, list):
        for v in x:
            refs(v, out)


def lookup(schema, ref):
    if not ref.startswith("#/"):
        raise KeyError(ref)
    for part in urllib.parse.unquote(ref[2:]).split("/"):
        schema = schema[part.replace("~1", "/").replace("~0", "~")]
    return schema


def cli(rng, path, d, url=None):
    """The schema written by the command, and how it was called."""
    out = os.path.join(d, "out.json")
    how = rng.choice(["relative", "absolute", "uri", "http"] if url else ["relative", "absolute", "uri"])
    cwd = os.path.dirname(path)
    arg = {"relative": os.path.basename(path), "absolute": path, "uri": "file://" + urllib.parse.quote(path),
           "http": (url or "") + urllib.parse.quote(path)}[how]
    os.chdir(cwd)
    try:
        args = G.parse_args([arg, "-o", out])
        rc = G.run(args)
        args.output.close()
    finally:
        os.chdir("/")
    with open(out) as h:
        text = h.read()
    return how, rc, text


def one(rng, d, r):
    t, ins, doc, path, version = build(rng, d)
    info = {"doc": doc, "files": {f: open(os.path.join(p, f)).read() for p, _, fs in os.walk(d) for f in fs if f.endswith(".yml")}}
    r.case(info, len(ins) > 1)
    r.see(version)
    with common.quiet():
        try:
            o = load_document_by_uri(path)
        except Exception as x:
            r.inconclusive("document does not load: %s %s" % (str(x)[-1500:], json.dumps(info)[:1500]))
            return
        try:
            s = G.cwl_to_jsonschema(o)
        except Exception as x:
            r.violation("fails", error="%s: %s" % (type(x).__name__, str(x)[-600:]), **info)
            return
        if rng.random() < 0.25:
            try:
                how, rc, text = cli(rng, path, d, URL)
            except Exception as x:
                r.violation("command-fails", error="%s: %s" % (type(x).__name__, str(x)[-600:]), path=path, **info)
                return
            r.see("command " + how)
            try:
                same = rc in (0, None) and json.loads(text) == json.loads(json.dumps(s).replace("file:/" + "/" + path, path))
            except ValueError:
                same = False
            if not same:
                r.violation("command-differs", how=how, rc=rc, got=text[:1500], want=s, **info)
                return
    s = json.loads(json.dumps(s))
    info["schema"] = s
    try:
        jsonschema.Draft7Validator.check_schema(s)
    except jsonschema.SchemaError as x:
        r.violation("schema-invalid", error=x.message[:500], **info)
        return
    out = []
    refs(s, out)
    for ref in out:
        try:
            lookup(s, ref)
        except (KeyError, TypeError, IndexError):
            r.violation("ref-unresolved", ref=ref, **info)
            return
        r.see("refs resolved")
    if s.get("type") != "object" or set(s.get("properties", {})) != {n for n, *_ in ins}:
        r.violation("properties-differ", want=[n for n, *_ in ins], **info)
        return
    want = sorted(n for n, ty, _, default, _ in ins if not t.nullable(ty) and not default)
    if sorted(s.get("required", [])) != want:
        r.violation("required-differ", want=want, got=s.get("required"), **info)
        return
    r.see("inputs", len(ins))
    for n, _, _, _, doc in ins:
        if doc:
            p = s["properties"][n]
            texts = [p.get("description")] + [q.get("description") for w in ("oneOf", "anyOf") for q in p.get(w, []) if isinstance(q, dict)]
            if (doc if isinstance(doc, str) else "\n".join(doc)) not in texts:
                r.violation("doc-lost", input=n, doc=doc, **info)
                return
            r.see("doc carried")
    val = jsonschema.Draft7Validator(s)
    for _ in range(4):
        job = {}
        for n, ty, _, default, _ in ins:
            v = t.value(ty)
            if (default or t.nullable(ty)) and rng.random() < 0.4:
                if rng.random() < 0.5:
                    job[n] = None
                continue
            job[n] = v
        e = first(val, job)
        r.see("valid jobs")
        if e:
            r.violation("valid-job-rejected", job=job, error=e, **info)
            return
        for n, ty, _, default, _ in ins:
            bad = dict(job)
            if rng.random() < 0.15:
                bad.pop(n, None)
                if default or t.nullable(ty):
                    continue
                verdict = False
                r.see("missing input")
            else:
                v = damage(rng, job[n] if n in job else t.value(ty))
                bad[n] = v
                verdict = t.ok(ty, v)
                if v is None and default:
                    verdict = True
            if verdict is None or unjudged(bad[n] if n in bad else 0):
                r.see("left open")
                continue
            e = first(val, bad)
            r.see("damaged but valid" if verdict else "invalid jobs")
            if verdict and e:
                r.violation("valid-job-rejected", job=bad, error=e, input=n, **info)
                return
            if not verdict and not e:
                r.violation("invalid-job-accepted", job=bad, input=n, type=repr(ty), **info)
                return


def unjudged(v):
    return isinstance(v, int) and not isinstance(v, bool) and abs(v) >= 2 ** 31 or isinstance(v, float) and v == int(v) \
        or isinstance(v, list) and any(map(unjudged, v)) or isinstance(v, dict) and any(map(unjudged, v.values()))


def first(val, job):
    e = next(val.iter_errors(json.loads(json.dumps(job))), None)
    return e and "%s: %s" % ("/".join(map(str, e.absolute_path)), e.message[:400])


class H(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def translate_path(self, p):
        return urllib.parse.unquote(p)


URL = None


def chunk(k, r):
    global URL
    if URL is None:
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        URL = "http://127.0.0.1:%d" % srv.server_address[1]
    rng = C.rng("doc", k)
    for _ in range(15):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(rng, d, r)
        shutil.rmtree(d)


def locales():
    r = common.Result()
    for n, args in enumerate((["doc.cwl", "--output", "OUT/s.json"], ["doc.cwl"])):
        common.any_locale(r, "cwl_utils.inputs_schema_gen", args, os.path.join(C.scratch, "locale%d" % n))
    return r


def body(c):
    for n, m in (("valid jobs", 3000), ("invalid jobs", 2000), ("damaged but valid", 500), ("missing input", 300), ("refs resolved", 1000),
                 ("doc carried", 500), ("inputs", 3000), ("v1.0", 300), ("v1.1", 300), ("v1.2", 300)):
        c.need(n, m)
    for h in ("relative", "absolute", "uri", "http"):
        c.need("command " + h, 50)
    c.need("locales", 2)
    c.add(locales())
    c.add(common.pool_run(chunk, range(scale(80, 4000))))


common.main(C, body)
