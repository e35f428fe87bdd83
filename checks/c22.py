"""C22 job files: random job objects, spelled and split in many ways, loaded in the three versions and compared with the model."""
import copy, io, json, logging, os, re, shutil, sys, tempfile
from pathlib import Path
from urllib.parse import quote, unquote, urljoin
import common, docs, gen, objdump
from common import scale
from cwl_utils.parser import cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils, utils as U
from schema_salad.utils import yaml_no_ts

logging.disable(logging.CRITICAL)
C = common.Check("C22", "one random job object written to files (YAML or JSON, with $import and $include), loaded by path, URI, string "
                 "or data, in three versions; distinct by content; non-trivial = a File or Directory is in it")

STR = gen.STRINGS + ["file.txt", "a/b.txt", "http://example.com/x", "#frag", "$(inputs.x)", "ex:foo", "2020-01-01", "12:30:00", "yes", "no",
                     "null", "~", "0x10", "1e3", "é", "File", "x" * 300, "_:b0", "../up", "=", "<<", "!tag", "on"]
INT = [0, 1, -1, 2**31, -2**31 - 1, 2**63, 10**25, 7]
FLOAT = [0.0, -0.5, 1.5, 1e-7, 123456.789, 3.0]
NAMES = ["in", "x y", "é", "my-file", "a.b", "path", "location", "class_", "id", "name", "type", "items", "0", "http", "listing", "basename",
         "secondaryFiles", "requirements", "run", "doc", "default", "format", "ex:name", "k:"]
FN = ["x.txt", "a b.txt", "é.txt", "sub/y.bam", "./z", "../up.txt", "sub/../w.txt", "a+b", "x,y;z", "f@1", "it's", "(1)", "very/deep/dir/n",
      ".hidden", "x&y=1", "~tilde", "x.y.z"]


class Job:
    def __init__(self, rng):
        self.rng, self.files, self.n, self.used = rng, 0, 0, {}
        self.out = {}
        self.ns = False

    def see(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def place(self, file, home, base):
        """A reference as it is written, and the file it means."""
        rng = self.rng
        self.files += 1
        k = rng.random()
        f = rng.choice(FN)
        if k < 0.7:
            return f, urljoin(base, quote(os.path.dirname(home) and os.path.dirname(home) + "/" or "") + quote(f))
        if k < 0.8:
            return "http://example.com/d/" + f, "http://example.com/d/" + quote(f)
        if k < 0.9:
            return "file:///data/" + quote(f), "file:///data/" + quote(f)
        return ("/data/" + f if base.startswith("file:") else "http://h.org/x"), \
            ("file:///data/" + quote(f) if base.startswith("file:") else "http://h.org/x")

    def file(self, home, base, depth, cls=None):
        rng = self.rng
        cls = cls or rng.choice(["File", "File", "Directory"])
        w, e = {"class": cls}, {"class": cls}
        self.see(cls)
        k = rng.random()
        key = "location" if k < 0.6 else "path" if k < 0.85 else None
        if key:
            a, b = self.place(cls, home, base)
            w[key], e[key] = a, ("URI", b)
        elif cls == "File":
            w["contents"] = e["contents"] = rng.choice(["abc", "", "l1\nl2\n", "é: {x}", "$(1)"])
        else:
            w["listing"], e["listing"] = [], []
        plain = {"basename": ["b.txt", "x y", "é"]}
        if cls == "File":
            plain.update({"checksum": ["sha1$a9993e364706816aba3e25717850c26c9cd0d89d"], "size": [0, 3, 2**40], "nameroot": ["r"],
                          "nameext": [".e", ""], "dirname": ["/d", "d/e"], "format": ["http://edamontology.org/format_2330", "https://example.com/f#x"]})
        for k, v in plain.items():
            if rng.random() < 0.2:
                w[k] = e[k] = rng.choice(v)
        if "format" in e:
            if self.ns and rng.random() < 0.7:
                w["format"], e["format"] = "ex:f1", gen.EXT + "f1"
                self.see("format with a prefix")
            e["format"] = ("URI", e["format"])
        sub = "secondaryFiles" if cls == "File" else "listing"
        if depth and rng.random() < 0.35:
            self.see(sub)
            pairs = [self.maybe_import(lambda h: self.file(h, base, depth - 1), home) for _ in range(rng.choice([0, 1, 2, 3]))]
            w[sub], e[sub] = [p[0] for p in pairs], [p[1] for p in pairs]
        items = list(w.items())
        rng.shuffle(items)
        return dict(items), e

    def maybe_import(self, make, home):
        rng = self.rng
        if rng.random() < 0.92:
            return make(home)
        self.n += 1
        new = os.path.normpath(os.path.join(os.path.dirname(home), rng.choice(["", "parts/", "../"]))) if False else \
            os.path.join(os.path.dirname(home), rng.choice(["", "parts", "p q"]))
        new = os.path.join(new, "part%d%s" % (self.n, rng.choice([".yml", ".json"])))
        w, e = make(new)
        if not isinstance(w, dict):
            return w, e             # (relative to the wrong file, but there is nothing in it to resolve)
        self.out[new] = w
        self.see("$import")
        return {"$import": quote(os.path.relpath(new, os.path.dirname(home) or "."))}, e

    def value(self, home, base, depth):
        rng = self.rng
        k = rng.randrange(12 if depth else 7)
        if k == 0:
            v = rng.choice(INT)
        elif k == 1:
            v = rng.choice(FLOAT)
        elif k == 2:
            v = rng.choice([True, False, None])
        elif k in (3, 4):
            v = rng.choice(STR)
            if isinstance(v, str) and rng.random() < 0.1:
                self.n += 1
                f = os.path.join(os.path.dirname(home), "inc%d.txt" % self.n)
                self.out[f] = v
                self.see("$include")
                return {"$include": os.path.basename(f)}, v
        elif k in (5, 6):
            return self.maybe_import(lambda h: self.file(h, base, min(depth, 2)), home)
        elif k in (7, 8):
            pairs = [self.value(home, base, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
            self.see("array")
            return [p[0] for p in pairs], [p[1] for p in pairs]
        elif k == 9:
            pairs = [self.file(home, base, 1) for _ in range(rng.choice([1, 2]))]
            return [p[0] for p in pairs], [p[1] for p in pairs]
        else:
            return self.maybe_import(lambda h: self.record(h, base, depth - 1), home)
        return v, v

    def record(self, home, base, depth):
        self.see("record")
        names = self.rng.sample(NAMES, self.rng.choice([0, 1, 2, 3]))
        pairs = {n: self.value(home, base, depth) for n in names}
        return {n: p[0] for n, p in pairs.items()}, {n: p[1] for n, p in pairs.items()}


def view(x):
    return objdump.dump(x)


def same(e, g, path=""):
    """Differences between the expected and the loaded value, exact in type."""
    if isinstance(e, tuple):
        if not isinstance(g, str):
            return [path + ": %r is no URI" % (g,)]
        a, b = unquote(e[1]), unquote(g)
        m = re.match(r"(\w+://)(.*)", b)
        b = m.group(1) + os.path.normpath(m.group(2)) if m else b
        m = re.match(r"(\w+://)(.*)", a)
        a = m.group(1) + os.path.normpath(m.group(2)) if m else a
        return [] if a == b else [path + ": %r for %r" % (g, e[1])]
    if isinstance(e, dict):
        if not isinstance(g, dict):
            return [path + ": %r for a map" % (g,)]
        out = [path + "/%s: missing" % k for k in e if k not in g] + [path + "/%s: added" % k for k in g if k not in e]
        for k in e:
            if k in g:
                out += same(e[k], g[k], path + "/" + k)
        return out
    if isinstance(e, list):
        if not isinstance(g, list) or len(e) != len(g):
            return [path + ": %r for a list of %d" % (g, len(e))]
        return [d for i, (a, b) in enumerate(zip(e, g)) for d in same(a, b, path + "[%d]" % i)]
    return [] if type(e) is type(g) and e == g else [path + ": %r for %r" % (g, e)]


def typed(x, version, out):
    """Places where a File or Directory is not loaded as an object of the version."""
    if objdump.is_cwl_object(x):
        if not type(x).__module__.endswith("cwl_v1_" + version[-1]):
            out.append(type(x).__module__)
        for f in ("secondaryFiles", "listing"):
            typed(getattr(x, f, None), version, out)
    elif isinstance(x, dict):
        if x.get("class") in ("File", "Directory"):
            out.append(str(dict(x))[:200])
        for v in x.values():
            typed(v, version, out)
    elif isinstance(x, list):
        for v in x:
            typed(v, version, out)


def one(rng, d, r):
    how = rng.choice(["path", "Path", "uri", "relative", "string", "yaml", "data", "default-base", "http"])
    dirname = rng.choice(["", "jobs", "a b", "a+b", "é", "x/y"])
    fname = rng.choice(["job.yml", "job.json", "my job.yml", "j+1.yml", "jé.yml"])
    path = os.path.join(d, dirname, fname)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    uri = Path(path).as_uri()
    base = "http://example.com/jobs/j.yml" if how == "http" else uri
    if how == "default-base":
        base = Path(os.path.dirname(path)).as_uri() + "/"
    J = Job(rng)
    J.ns = rng.random() < 0.25      # with the loading options of a document
    names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 5, 8]))
    saved = None
    pairs = {}
    for n in names:
        pairs[n] = J.value("", base, 3)
    w, e = {n: p[0] for n, p in pairs.items()}, {n: p[1] for n, p in pairs.items()}
    if how == "http" and J.out:
        return
    if rng.random() < 0.15:
        w["cwl:requirements"] = e["cwl:requirements"] = [{"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": "b"}]}]
    for f, c in J.out.items():
        p = os.path.join(os.path.dirname(path), f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as h:
            h.write(c if isinstance(c, str) else gen.write_yaml(c, rng))
    text = gen.write_yaml(w, rng)
    with open(path, "w", encoding="utf-8", newline="") as h:
        h.write(text)
    r.case([text, J.out], J.files > 0, {"how": how, "job": text[:400]})
    for k, v in J.used.items():
        r.see(k, v)
    info = dict(how=how, text=text, parts=J.out, path=os.path.join(dirname, fname))
    first = None
    for version in ("v1.0", "v1.1", "v1.2"):
        os.chdir(os.path.dirname(path))
        data = None
        lo = docs.load(DOC % version[-1]).loadingOptions if J.ns else None
        try:
            with common.quiet():
                if how == "path":
                    got = U.load_inputfile_by_uri(version, path, lo)
                elif how == "Path":
                    got = U.load_inputfile_by_uri(version, Path(path), lo)
                elif how == "relative":
                    got = U.load_inputfile_by_uri(version, fname, lo)
                elif how == "uri" and rng.random() < 0.3:
                    r.see("reference to the version's loader")
                    got = MODULES[version].load_inputfile(uri, loadingOptions=lo) if rng.random() < 0.5 else \
                        MODULES[version].load_inputfile(quote(fname), Path(os.path.dirname(path)).as_uri() + "/", lo)
                elif how == "uri":
                    got = U.load_inputfile_by_uri(version, uri, lo)
                elif how == "http":
                    got = U.load_inputfile_by_string(version, text, base, lo)
                elif how == "string" and rng.random() < 0.3:
                    r.see("string to the version's loader")
                    got = MODULES[version].load_inputfile_by_string(text, uri, lo)
                elif how == "string":
                    got = U.load_inputfile_by_string(version, text, uri, lo) if rng.random() < 0.5 else U.load_inputfile(version, text, uri, lo)
                else:
                    data = yaml_no_ts().load(text) if how != "data" else copy.deepcopy(w)
                    before = json.dumps(data)
                    if how == "default-base":
                        if rng.random() < 0.5:
                            got = MODULES[version].load_inputfile(data, loadingOptions=lo)
                            r.see("default-base of the version")
                        else:
                            got = U.load_inputfile(version, data, loadingOptions=lo)
                    elif rng.random() < 0.3:
                        got = MODULES[version].load_inputfile(data, uri, lo) if rng.random() < 0.5 else \
                            MODULES[version].load_inputfile_by_yaml(data, uri, lo)
                    else:
                        got = U.load_inputfile(version, data, uri, lo) if rng.random() < 0.5 else U.load_inputfile_by_yaml(version, data, uri, lo)
        except Exception as x:
            r.violation("load-fails", version=version, error="%s: %s" % (type(x).__name__, str(x)[-1000:]), **info)
            return
        finally:
            os.chdir("/")
        r.see("loaded by " + how)
        if data is not None:
            if json.dumps(data) != before:
                r.violation("data-modified", version=version, before=before, after=json.dumps(data), **info)
            r.see("data compared")
        df = same(e, view(got))
        if df:
            r.violation("value-differs", version=version, diff=df[:5], **info)
            return
        bad = []
        typed({k: v for k, v in got.items() if k != "cwl:requirements"}, version, bad)
        if bad:
            r.violation("file-object-type", version=version, bad=bad, **info)
            return


MODULES = {"v1.0": cwl_v1_0_utils, "v1.1": cwl_v1_1_utils, "v1.2": cwl_v1_2_utils}
DOC = os.path.join(C.scratch, "doc%s.cwl")
for v in "012":
    with open(DOC % v, "w") as h:
        json.dump({"cwlVersion": "v1." + v, "class": "CommandLineTool", "inputs": [], "outputs": [], "$namespaces": {"ex": gen.EXT}}, h)


def chunk(k, r):
    rng = C.rng("job", k)
    for _ in range(15):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(rng, d, r)
        shutil.rmtree(d)


def body(c):
    for n, m in (("File", 2000), ("Directory", 800), ("secondaryFiles", 200), ("listing", 100), ("$import", 60), ("$include", 30),
                 ("record", 300), ("array", 500), ("data compared", 500)):
        c.need(n, m)
    for h in ("path", "Path", "uri", "relative", "string", "yaml", "data", "default-base", "http"):
        c.need("loaded by " + h, 300)
    c.need("default-base of the version", 100)
    c.need("reference to the version's loader", 60)
    c.need("string to the version's loader", 60)
    c.need("format with a prefix", 60)
    c.add(common.pool_run(chunk, range(scale(320, 8000))))


common.main(C, body)
