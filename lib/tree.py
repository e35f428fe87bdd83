"""Spreads a fully inlined CWL document over files ($import, $include, run references, imported types).

Also the normal form in which a spread-out or packed document and the inlined original are compared."""
from __future__ import annotations
import copy, json, os, posixpath, re
from urllib.parse import unquote
import gen

BUILTIN = {"null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any", "stdin", "stdout",
           "stderr", "array", "record", "enum"}


def rewrite(x, f):
    """Replace every string s by f(s)."""
    if isinstance(x, dict):
        return {k: rewrite(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [rewrite(v, f) for v in x]
    return f(x) if isinstance(x, str) else x


def located(x, f):
    """Replace every relative location of a File or Directory by f(location)."""
    if isinstance(x, dict):
        ff = x.get("class") in ("File", "Directory")
        return {k: f(v) if ff and k in ("location", "path") and isinstance(v, str) and ":" not in v and not v.startswith("/")
                else located(v, f) for k, v in x.items()}
    return [located(v, f) for v in x] if isinstance(x, list) else x


def locations(x):
    out = []
    located(x, lambda s: out.append(s) or s)
    return out


def absolute(x, base):
    """Resolved documents: give all locations absolutely and normalised (base: URI of the document)."""
    folder = unquote(base[len("file://"):]).rsplit("/", 1)[0] + "/"

    def go(v):
        if isinstance(v, dict):
            ff = v.get("class") in ("File", "Directory")
            return {k: norm(w) if ff and k in ("location", "path") and isinstance(w, str) else go(w) for k, w in v.items()}
        return [go(w) for w in v] if isinstance(v, list) else v

    def norm(w):
        if w.startswith("file://"):
            w = unquote(w[len("file://"):])
        elif ":" in w or w.startswith("$"):
            return w
        else:
            w = folder + unquote(w)
        return posixpath.normpath(w)
    return go(x)


TYPEREF = re.compile(r"^[^#:]*\.yml#")


def rebase(x, frm, to):
    """Adjust the relative references in x, a part of the file frm that moves to the file to."""
    def link(s):
        t = posixpath.normpath(posixpath.join(posixpath.dirname(frm), unquote(s)))
        return posixpath.relpath(t, posixpath.dirname(to) or ".").replace(" ", "%20")

    def go(v, key=None):
        if isinstance(v, dict):
            ff = v.get("class") in ("File", "Directory")
            return {k: link(w) if isinstance(w, str) and (k in ("$import", "$include") or k == "run" and not re.match("RUN\\d+$|#", w))
                    else (link(w) if ff and k in ("location", "path") and isinstance(w, str) and ":" not in w else go(w))
                    for k, w in v.items()}
        if isinstance(v, list):
            return [go(w) for w in v]
        if isinstance(v, str) and TYPEREF.match(v):
            f, _, n = v.partition("#")
            return link(f) + "#" + n
        return v
    return go(x)


def local_refs(x):
    """Does x use a name of its own document?"""
    if isinstance(x, dict):
        return any(local_refs(v) for v in x.values())
    if isinstance(x, list):
        return any(local_refs(v) for v in x)
    return isinstance(x, str) and x.startswith("#")


class Tree:
    """files: path relative to the root directory -> object or text."""

    def __init__(self, rng, version, p_file=0.6, p_import=0.3, p=0.6, hash_refs=0.15, version_in_parts=0.9, p_extract=0.0, p_whole=0.0):
        self.rng, self.version = rng, version
        self.p_file, self.p_import, self.p, self.hash_refs = p_file, p_import, p, hash_refs
        self.version_in_parts, self.p_extract, self.p_whole = version_in_parts, p_extract, p_whole
        self.moved = False
        self.files = {}
        self.n = 0
        self.used = {}
        self.shared = []        # (path, inline form) of tools that can be referenced again

    def see(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def newpath(self, kind, ext):
        self.n += 1
        d = self.rng.choice(["", "", "tools/", "sub/", "sub/deep/", "sp ace/"]) if self.rng.random() < 0.9 else "d%d/" % self.n
        return "%s%s%d%s" % (d, kind, self.n, ext)

    def rel(self, target, frm):
        r = posixpath.relpath(target, posixpath.dirname(frm) or ".")
        r = r.replace(" ", "%20") if "%20" in r or " " in r else r
        return "./" + r if self.rng.random() < 0.15 and not r.startswith(".") else r

    # -- types
    def types(self, d, path):
        """Move the type definitions of a process to other files."""
        sd = next((r for r in d.get("requirements") or [] if r.get("class") == "SchemaDefRequirement"), None)
        if not sd:
            return d
        names = [t["name"] for t in sd["types"]]
        k = self.rng.random()
        if k < 0.2:
            return d
        d = copy.deepcopy(d)
        sd = next(r for r in d["requirements"] if r["class"] == "SchemaDefRequirement")
        where = {}
        if k < 0.5:             # one file per type
            imports = []
            for t in sd["types"]:
                f = self.newpath("type", ".yml")
                self.files[f] = t if self.rng.random() < 0.6 else [t]
                where[t["name"]] = f
                imports.append({"$import": self.rel(f, path)})
            self.see("types in single files")
        elif k < 0.85:          # all in one file
            f = self.newpath("types", ".yml")
            self.files[f] = sd["types"] if len(sd["types"]) > 1 or self.rng.random() < 0.5 else sd["types"][0]
            where = {n: f for n in names}
            imports = [{"$import": self.rel(f, path)}]
            self.see("types in one file")
        else:                   # the requirement itself is imported
            f = self.newpath("schemadef", ".yml")
            self.files[f] = {"class": "SchemaDefRequirement", "types": sd["types"]}
            where = {n: f for n in names}
            d["requirements"] = [{"$import": self.rel(f, path)} if r["class"] == "SchemaDefRequirement" else r
                                 for r in d["requirements"]]
            imports = None
            self.see("requirement imported")
        if imports is not None:
            sd["types"] = imports
        refs = {"#" + n: self.rel(f, path) + "#" + n for n, f in where.items()}
        return rewrite(d, lambda s: refs.get(s, s))

    # -- processes
    def process(self, d, path, top=False):
        """Spread process d, to be written at path; returns what to write there."""
        if not hasattr(self, "top"):
            self.top = path
        d = copy.deepcopy(d)
        stepfile = {}
        if "steps" in d:
            steps = []
            for s in d["steps"]:
                at = path
                if self.rng.random() < self.p_extract:
                    at = stepfile[s["id"]] = self.newpath("step", ".yml")
                steps.append(self.step(s, at))
            d["steps"] = steps
        d = self.types(d, path)
        sug = gen.Sugar(self.rng, self.version, p=self.p, p_import=self.p_import, files={})
        # Sugar leaves imports of ours alone: hide them
        hidden = {}

        def hide(x):
            if isinstance(x, dict):
                if set(x) == {"$import"}:
                    return x
                return {k: hide(v) for k, v in x.items()}
            return [hide(v) for v in x] if isinstance(x, list) else x
        runs = []
        for s in d.get("steps") or []:
            runs.append(s["run"])
            s["run"] = "RUN%d" % (len(runs) - 1)
        out = sug.proc(hide(d))
        self.n += 1
        base = posixpath.dirname(path)
        for f, c in sug.files.items():
            g = "x%d-%s" % (self.n, f.replace("/", "-")) if "/" not in f else posixpath.join(posixpath.dirname(f), "x%d-%s" % (self.n, posixpath.basename(f)))
            out = rewrite(out, lambda s, f=f, g=g: g if s == f else s)
            self.files[posixpath.join(base, g)] = c
        for k, v in sug.used.items():
            self.used[k] = self.used.get(k, 0) + v
        out = located(out, lambda s: posixpath.relpath(
            posixpath.join(posixpath.dirname(self.top), s), posixpath.dirname(path) or "."))
        if self.rng.random() < self.hash_refs and "steps" in d and not stepfile:
            out = hashed(out)
            self.see("refs with #")
        out = self.extract(out, path)
        st = out.get("steps")
        if stepfile and isinstance(st, dict):
            st = out["steps"] = [dict(v, id=k) for k, v in st.items()]
        for i, (k, s) in enumerate(st.items() if isinstance(st, dict) else enumerate(st or [])):
            f = stepfile.get(s.get("id"))
            if f:
                s = rebase(s, path, f)
            s["run"] = runs[int(s["run"][3:])]
            if f:
                self.files[f] = s
                st[k] = {"$import": self.rel(f, path)}
                self.see("step imported")
        for k in ("inputs", "outputs"):
            if self.rng.random() < self.p_whole and isinstance(out.get(k), (dict, list)) and out[k] and not local_refs(out[k]):
                f = self.newpath(k, ".yml")
                self.files[f] = rebase(out[k], path, f)
                out[k] = {"$import": self.rel(f, path)}
                self.see("all %s imported" % k)
        return out

    def extract(self, out, path):
        """Move parameters, types and requirements to files of their own."""
        def take(x, kind):
            if self.rng.random() < self.p_extract and not local_refs(x):
                f = self.newpath(kind, self.rng.choice([".yml", ".json"]))
                self.files[f] = rebase(x, path, f)
                self.see(kind + " imported")
                return {"$import": self.rel(f, path)}
            return x

        def typ(t):
            if isinstance(t, list):
                return [typ(x) for x in t]
            if isinstance(t, dict) and "$import" not in t and t.get("type") in ("record", "array", "enum"):
                t = dict(t)
                if "items" in t:
                    t["items"] = typ(t["items"])
                if isinstance(t.get("fields"), list):
                    t["fields"] = [dict(f, type=typ(f["type"])) if isinstance(f, dict) and "type" in f else f for f in t["fields"]]
                return take(t, "type")
            return t
        out = dict(out)
        for k in ("inputs", "outputs"):
            if isinstance(out.get(k), list):
                out[k] = [p if not isinstance(p, dict) or "$import" in p else
                          take(dict(p, type=typ(p["type"])) if "type" in p else p, "parameter") for p in out[k]]
        for k in ("requirements", "hints"):
            if isinstance(out.get(k), list):
                out[k] = [r if not isinstance(r, dict) or "$import" in r or r.get("class") == "SchemaDefRequirement" else
                          take(r, "other requirement") for r in out[k]]
        return out

    def step(self, s, path):
        s = dict(s)
        run = s["run"]
        if not isinstance(run, dict):
            return s
        if self.rng.random() < self.p_file:
            f = self.newpath("proc", ".cwl")
            c = self.process(run, f)
            if self.rng.random() < self.version_in_parts:
                c = {"cwlVersion": self.version, **c}
            if uses_ns(c) or uses_ns(run):
                c["$namespaces"] = {"ex": gen.EXT}
                self.see("namespaces in a part")
            self.files[f] = c
            if self.rng.random() < 0.15:
                s["run"] = {"$import": self.rel(f, path)}
                self.see("run imported")
            else:
                s["run"] = self.rel(f, path)
                self.see("run by reference")
        else:
            s["run"] = self.process(run, path)
            self.see("run inline")
        return s


def uses_ns(x):
    if isinstance(x, dict):
        return any(k.startswith("ex:") or uses_ns(v) for k, v in x.items())
    if isinstance(x, list):
        return any(uses_ns(v) for v in x)
    return isinstance(x, str) and x.startswith("ex:")


def hashed(x):
    """Write sources with a leading '#'."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ("source", "outputSource"):
                v = ["#" + s for s in v] if isinstance(v, list) else "#" + v
            else:
                v = hashed(v) if k not in ("default", "run") else v
            out[k] = v
        return out
    return [hashed(v) for v in x] if isinstance(x, list) else x


# ---------------------------------------------------------------- normal form of a resolved document
def last(s):
    return s.split("#")[-1].split("/")[-1]


def typedefs(x, out):
    if isinstance(x, dict):
        if x.get("class") == "SchemaDefRequirement":
            for t in x.get("types") or []:
                if isinstance(t, dict) and t.get("name"):
                    out[t["name"]] = t
        for v in x.values():
            typedefs(v, out)
    elif isinstance(x, list):
        for v in x:
            typedefs(v, out)


def normal(doc, short=None):
    """Normal form of a document as the reference reader resolves it: processes inline, user types
    inline and nameless, ids short, sources by input or step/output, no SchemaDefRequirement."""
    short = short or last
    defs = {}
    typedefs(doc, defs)

    def ntype(t):
        if isinstance(t, str):
            if t in defs:
                return ntype(defs[t])
            return t
        if isinstance(t, list):
            return [ntype(x) for x in t]
        if isinstance(t, dict):
            out = {}
            for k, v in t.items():
                if k == "name" and t.get("type") in ("record", "enum", "array"):
                    continue
                if k == "symbols":
                    v = [last(s) for s in v]
                elif k in ("type", "items"):
                    v = ntype(v)
                elif k == "fields":
                    v = [dict(nany(ntype(f)), name=last(f["name"])) for f in v]
                else:
                    v = nany(v)
                if v is not None:
                    out[k] = v
            return out
        return t

    def nany(v):
        if isinstance(v, dict):
            return {k: nany(x) for k, x in v.items() if x is not None}
        if isinstance(v, list):
            return [nany(x) for x in v]
        return v

    def nreqs(l):
        # requirements keep their class; type definitions are gone
        return sorted((listed(nany(r)) for r in l if not (isinstance(r, dict) and r.get("class") == "SchemaDefRequirement")),
                      key=lambda r: (str(r.get("class")), repr(r)) if isinstance(r, dict) else ("", repr(r)))

    def listed(r):
        # the order of entries given as a map is not kept by the reference reader
        return {k: sorted(v, key=lambda x: json.dumps(x, sort_keys=True)) if k in ("packages", "envDef") and isinstance(v, list) else v
                for k, v in r.items()} if isinstance(r, dict) else r

    def nparam(p, srcs):
        out = {}
        for k, v in p.items():
            if v is None:
                continue
            if k == "id":
                v = short(v)
            elif k == "type":
                v = ntype(v)
            elif k in ("source", "outputSource"):
                v = [srcs.get(s, s) for s in v] if isinstance(v, list) else srcs.get(v, v)
            else:
                v = nany(v)
            out[k] = v
        return out

    def nproc(p):
        if not isinstance(p, dict):
            return p
        srcs = {i["id"]: short(i["id"]) for i in p.get("inputs") or [] if "id" in i}
        for s in p.get("steps") or []:
            for o in s.get("out") or []:
                o = o if isinstance(o, str) else o["id"]
                srcs[o] = short(o) if short is not last else last(s["id"]) + "/" + last(o)
        out = {}
        for k, v in p.items():
            if v is None or k in ("id", "cwlVersion", "name"):
                continue
            if k in ("inputs", "outputs"):
                v = [nparam(x, srcs) for x in v]
            elif k in ("requirements", "hints"):
                v = nreqs(v)
                if k == "requirements":
                    v = [r for r in v if r.get("class") != "SubworkflowFeatureRequirement"]
                if not v:
                    continue
            elif k == "steps":
                v = [nstep(s, srcs) for s in v]
            else:
                v = nany(v)
            out[k] = v
        return out

    def nstep(s, srcs):
        out = {}
        for k, v in s.items():
            if v is None:
                continue
            if k == "id":
                v = short(v)
            elif k == "in":
                v = [nparam(x, srcs) for x in v]
            elif k == "out":
                v = [short(x if isinstance(x, str) else x["id"]) for x in v]
            elif k == "scatter":
                v = [short(x) for x in v] if isinstance(v, list) else short(v)
            elif k in ("requirements", "hints"):
                v = nreqs(v)
                if not v:
                    continue
            elif k == "run":
                v = nproc(v)
            else:
                v = nany(v)
            out[k] = v
        return out
    return nproc(doc)
