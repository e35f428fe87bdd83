"""Schema-driven random CWL documents.

The shape comes from the CWL metaschema (classes, fields, type alternatives) as shipped with
cwltool; semantic hooks fill in identifiers, references, types and expressions so that documents are
valid.  Documents are produced fully spelled out; `sugar()` rewrites them with CWL's shorthands.
"""
from __future__ import annotations
import copy, random
import salad_ref

STRINGS = ["", "text", "multi\nline\n", "\u00fc\u00f1\u00ee \u4e2d\u6587 \U0001F600", "a: b", "yes", "0", "null", "~",
           "#frag", "- x", " lead and trail ", "it's \"quoted\"", "back\\slash", "100%", "x#y", "key: [1, 2]",
           "tab\there", "true", "1e3", "2001-01-01"]
PATHS = ["out.txt", "sub/dir", "*.bam", "a b.txt", "x.tar.gz"]
EXPRS = ["$(inputs.a)", "$(inputs.a.path)", "${return 1;}", "$(runtime.cores)", "$(1 + 1)", "${\n  return {'a': [1]};\n}"]
INTS = [0, 1, -1, 7, 2147483647, -2147483648]
LONGS = [0, 1, -5, 2 ** 40, 2 ** 53]
FLOATS = [0.0, 1.5, -2.25, 1e10]
PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "File", "Directory"]
PROC = ["CommandLineTool", "ExpressionTool", "Workflow", "Operation"]
EXT = "http://example.com/ext#"


def short(name):
    return name.split(".")[-1]


def kind(s):
    return type(s).__name__


class SKIP(Exception):
    pass


class Gen:
    def __init__(self, rng, version, max_depth=3, p_opt=0.35, ext=True, p_expr=0.3):
        self.rng, self.version = rng, version
        self.loader, self.avsc = salad_ref.schema(version)
        self.recs = {}
        for n, s in self.avsc.names.items():
            if s.type == "record":
                self.recs.setdefault(short(n), s)
        self.cov = {}
        self.max_depth, self.p_opt, self.ext, self.p_expr = max_depth, p_opt, ext, p_expr
        self.n = 0
        self.namespaces = False
        self.typedefs = []
        self.force = None      # (record, field) to include
        self.used = set()

    # -- helpers
    def name(self, p="n"):
        self.n += 1
        r = self.rng.random()
        suffix = self.rng.choice(["", "", "", "_x", "-y", ".z", "A", "\u00e9"])
        return "%s%d%s" % (p, self.n, suffix)

    def s(self):
        return self.rng.choice(STRINGS)

    def json(self, depth=2, inlist=False):
        r = self.rng
        k = r.randrange(9 if depth > 0 else 6)
        if k == 0: return r.choice(INTS)
        if k == 1: return r.choice(FLOATS)
        if k == 2: return r.choice([True, False])
        if k in (3, 4): return r.choice(STRINGS)
        if k == 5: return r.choice(["", 0, False, 0.0])
        if k in (6, 7) and not inlist: return [self.json(depth - 1, True) for _ in range(r.randrange(4))]
        return {"k%d" % i: self.json(depth - 1) for i in range(r.randrange(4))}

    def hit(self, rec, field, alt):
        self.used.add((rec, field, str(alt)))

    def pick(self, rec, field, alts):
        """Prefer alternatives seen least (over the whole life of this generator)."""
        if self.rng.random() < 0.7:
            m = min(self.cov.get((rec, field, i), 0) for i in range(len(alts)))
            alts_i = [i for i in range(len(alts)) if self.cov.get((rec, field, i), 0) == m]
        else:
            alts_i = list(range(len(alts)))
        i = self.rng.choice(alts_i)
        self.cov[(rec, field, i)] = self.cov.get((rec, field, i), 0) + 1
        return alts[i], i

    # -- schema walk
    def value(self, sch, rec, field, ctx, depth):
        k = kind(sch)
        if k == "UnionSchema":
            alts = [x for x in sch.schemas if x.type != "null" or kind(x) == "RecordSchema"]
            a, i = self.pick(rec, field, alts)
            self.hit(rec, field, i)
            return self.value(a, rec, field, ctx, depth)
        if k == "ArraySchema":
            return [self.value(sch.items, rec, field, ctx, depth) for _ in range(self.rng.choice([0, 1, 1, 2, 3]))]
        if k == "RecordSchema":
            return self.record(short(sch.name), ctx, depth + 1)
        if k == "PrimitiveSchema":
            t = sch.type
            if t == "string": return self.s()
            if t == "int": return self.rng.choice(INTS)
            if t == "long": return self.rng.choice(LONGS)
            if t in ("float", "double"): return self.rng.choice(FLOATS)
            if t == "boolean": return self.rng.random() < 0.5
        if k == "EnumSchema":
            n = short(sch.name)
            if n == "Expression": return self.rng.choice(EXPRS)
            if n == "Any": return self.json()
            return self.rng.choice(list(sch.symbols))
        raise TypeError(k)

    def record(self, rec, ctx, depth, only=None):
        sch = self.recs[rec]
        out = {}
        fields = list(sch.fields)
        for f in fields:
            fn = f.name
            optional = kind(f.type) == "UnionSchema" and any(
                kind(x) == "PrimitiveSchema" and x.type == "null" for x in f.type.schemas)
            must = not optional or self.force == (rec, fn)
            deep = depth > self.max_depth
            if not must and self.rng.random() > (self.p_opt if not deep else self.p_opt / 3):
                if (rec, fn) not in ALWAYS:
                    continue
            hook = HOOKS.get((rec, fn)) or HOOKS.get(("*", fn))
            try:
                if hook:
                    v = hook(self, rec, fn, f, ctx, depth)
                else:
                    v = self.value(f.type, rec, fn, ctx, depth)
            except SKIP:
                continue
            self.hit(rec, fn, "")
            out[fn] = v
        if self.ext and rec in EXTENSIBLE and self.rng.random() < 0.08:
            self.namespaces = True
            out["ex:" + self.rng.choice(["note", "n2", "author"])] = self.json()
        return out

    # -- types
    def gtype(self, fam, ctx, depth, allow_null=True):
        r = self.rng
        k = r.random()
        prims = [p for p in PRIMS if p != "null"] + ["Any"]
        if depth > self.max_depth + 1 or k < 0.45:
            return r.choice(prims)
        if k < 0.60:
            opts = []
            n = r.randrange(1, 4)
            for _ in range(n):
                t = self.gtype(fam, ctx, depth + 1)
                if isinstance(t, list) or t in opts or t == "Any":
                    continue
                opts.append(t)
            if r.random() < 0.5:
                opts.insert(r.choice([0, len(opts)]), "null")
            return opts or ["null", "string"]
        if k < 0.75:
            return self.record(fam + "ArraySchema", ctx, depth + 1)
        if k < 0.85:
            return self.record(fam + "EnumSchema", ctx, depth + 1)
        if k < 0.95 or not ctx.get("typedefs"):
            return self.record(fam + "RecordSchema", ctx, depth + 1)
        return "#" + r.choice(ctx["typedefs"]) if fam in ("CommandInput", "Input") else r.choice(prims)


def fam_of(rec):
    if rec.startswith("CommandInput"): return "CommandInput"
    if rec.startswith("CommandOutput"): return "CommandOutput"
    if rec.startswith(("Output", "WorkflowOutput", "ExpressionToolOutput", "OperationOutput")): return "Output"
    if rec in ("InputParameter", "WorkflowInputParameter", "OperationInputParameter") or rec.startswith("Input"):
        return "Input"
    return "Input"


EXTENSIBLE = {"CommandLineTool", "ExpressionTool", "Workflow", "Operation", "WorkflowStep", "CommandInputParameter",
              "CommandOutputParameter", "InputParameter", "WorkflowInputParameter", "WorkflowOutputParameter",
              "ExpressionToolOutputParameter", "WorkflowStepInput", "CommandLineBinding", "CommandOutputBinding",
              "OperationInputParameter", "OperationOutputParameter",
              "DockerRequirement", "ResourceRequirement", "SoftwarePackage", "CommandInputRecordField",
              "CommandInputRecordSchema", "File", "Dirent"}
ALWAYS = {("SoftwareRequirement", "packages"), ("CommandInputRecordSchema", "fields"),
          ("InputRecordSchema", "fields"), ("OutputRecordSchema", "fields"), ("CommandOutputRecordSchema", "fields")}


def h_skip(g, rec, fn, f, ctx, depth):
    raise SKIP


def h_class(g, rec, fn, f, ctx, depth):
    return rec


def h_id(g, rec, fn, f, ctx, depth):
    raise SKIP      # processes: ids assigned by the caller


def h_param_list(item):
    def h(g, rec, fn, f, ctx, depth):
        out = []
        for _ in range(g.rng.choice([0, 1, 1, 2, 3])):
            p = g.record(item if isinstance(item, str) else item(g, rec), ctx, depth + 1)
            p["id"] = g.name("i" if fn == "inputs" else "o")
            out.append(p)
        return out
    return h


def item_class(f):
    return short(f.type.items.name)


def h_inputs(g, rec, fn, f, ctx, depth):
    items = f.type.items
    out = []
    stdin_used = False
    for _ in range(g.rng.choice([0, 1, 2, 2, 3])):
        p = g.record(short(items.name), ctx, depth + 1)
        p["id"] = g.name("i")
        if p.get("type") == "stdin":
            if stdin_used or "inputBinding" in p:
                p["type"] = "File"
            stdin_used = True
        out.append(p)
    ctx["inputs"] = [p["id"] for p in out]
    return out


def h_outputs(g, rec, fn, f, ctx, depth):
    out = []
    for _ in range(g.rng.choice([0, 1, 2, 2, 3])):
        p = g.record(short(f.type.items.name), ctx, depth + 1)
        p["id"] = g.name("o")
        out.append(p)
    return out


def h_type(g, rec, fn, f, ctx, depth):
    fam = fam_of(rec)
    if rec == "CommandInputParameter" and g.version != "v1.0" and g.rng.random() < 0.1:
        return "stdin"
    if rec == "CommandOutputParameter" and g.rng.random() < 0.25:
        return g.rng.choice(["stdout", "stderr"])
    return g.gtype(fam, ctx, depth)


def h_sym(g, rec, fn, f, ctx, depth):
    return [g.name("s") for _ in range(g.rng.choice([1, 1, 2, 3]))]


def h_const(v):
    def h(g, rec, fn, f, ctx, depth):
        return v
    return h


def h_name(g, rec, fn, f, ctx, depth):
    if rec.endswith("Schema"):
        return g.name("T")
    return g.name("f")


def h_version(g, rec, fn, f, ctx, depth):
    raise SKIP


def h_format(g, rec, fn, f, ctx, depth):
    r = g.rng
    alts = ["http://edamontology.org/format_2330", "http://example.com/ext#fmt", "NS"]
    if "Output" not in rec and rec != "File":
        alts += ["LIST"]
    if rec != "File":
        alts.append("EXPR")
    a = r.choice(alts)
    g.hit(rec, fn, a)
    if a == "NS":
        g.namespaces = True
        return r.choice(["ex:format_%d", "ex:format_%d", "ex:fmt:v%d", "ex:a/b%d"]) % r.randrange(3)
    if a == "LIST":
        g.namespaces = True
        return ["http://edamontology.org/format_2330", "ex:format_1"][:r.choice([1, 2])]
    if a == "EXPR":
        return "$(inputs.fmt)"
    return a


def h_hints(g, rec, fn, f, ctx, depth):
    out = []
    for _ in range(g.rng.choice([0, 1, 1, 2])):
        if g.rng.random() < 0.25:
            g.namespaces = True
            out.append({"class": g.rng.choice(["ex:UnknownHint%d", "ex:UnknownHint%d", "ex:Un:known%d"]) % g.rng.randrange(3), "ex:value": g.json()})
        else:
            out.append(g.req(ctx, depth))
    return uniq(out)


def uniq(l):
    seen, out = set(), []
    for x in l:
        if x["class"] not in seen:
            seen.add(x["class"])
            out.append(x)
    return out


REQS = ["InlineJavascriptRequirement", "SchemaDefRequirement", "LoadListingRequirement", "DockerRequirement",
        "SoftwareRequirement", "InitialWorkDirRequirement", "EnvVarRequirement", "ShellCommandRequirement",
        "ResourceRequirement", "WorkReuse", "NetworkAccess", "InplaceUpdateRequirement", "ToolTimeLimit",
        "SubworkflowFeatureRequirement", "ScatterFeatureRequirement", "MultipleInputFeatureRequirement",
        "StepInputExpressionRequirement"]


def req(self, ctx, depth):
    av = [r for r in REQS if r in self.recs and r != "SchemaDefRequirement"]
    a, i = self.pick("@req", "class", av)
    return self.record(a, ctx, depth + 1)


Gen.req = req


def h_requirements(g, rec, fn, f, ctx, depth):
    out = [g.req(ctx, depth) for _ in range(g.rng.choice([0, 1, 2, 3]))]
    return uniq(out)


def h_types(g, rec, fn, f, ctx, depth):
    out = []
    for n in ctx.get("want_typedefs", []):
        t = g.record(g.rng.choice(["CommandInputRecordSchema", "CommandInputEnumSchema"]
                                  if g.version != "v1.0" else ["InputRecordSchema", "InputEnumSchema"]),
                     dict(ctx, typedefs=[]), depth + 1)
        t["name"] = n
        out.append(t)
    return out


def h_in(g, rec, fn, f, ctx, depth):
    out = []
    for _ in range(g.rng.choice([0, 1, 2, 3])):
        p = g.record("WorkflowStepInput", ctx, depth + 1)
        p["id"] = g.name("x")
        out.append(p)
    ctx["step_in"] = [p["id"] for p in out]
    return out


def h_source(g, rec, fn, f, ctx, depth):
    av = ctx.get("sources") or []
    if not av:
        raise SKIP
    r = g.rng
    if r.random() < 0.6:
        g.hit(rec, fn, "scalar")
        return r.choice(av)
    g.hit(rec, fn, "list")
    return [r.choice(av) for _ in range(r.choice([1, 2, 2, 3]))]


def h_out(g, rec, fn, f, ctx, depth):
    out = []
    for o in ctx["step_outs"]:
        if g.rng.random() < 0.3:
            out.append(dict(g.record("WorkflowStepOutput", ctx, depth + 1), id=o))
        else:
            out.append(o)
    return out


def h_scatter(g, rec, fn, f, ctx, depth):
    # decided after 'in' exists
    raise SKIP


def h_steps(g, rec, fn, f, ctx, depth):
    n = g.rng.choice([0, 1, 2, 3]) if depth < g.max_depth else g.rng.choice([0, 1])
    plan = [(g.name("step"), [g.name("q") for _ in range(g.rng.choice([0, 1, 2]))]) for _ in range(n)]
    av = list(ctx.get("inputs", [])) + [s + "/" + o for s, os_ in plan for o in os_]
    ctx["sources"] = av
    steps = []
    for sid, outs in plan:
        own = {sid + "/" + o for o in outs}
        c = dict(ctx, step_outs=outs, sources=[x for x in av if x not in own], inputs=ctx.get("inputs", []))
        st = g.record("WorkflowStep", c, depth + 1)
        st["id"] = sid
        if st["in"] and g.rng.random() < 0.4:
            k = [p["id"] for p in st["in"]]
            if g.rng.random() < 0.5:
                st["scatter"] = g.rng.choice(k)
            else:
                st["scatter"] = g.rng.sample(k, g.rng.randrange(1, len(k) + 1))
                st["scatterMethod"] = g.rng.choice(["dotproduct", "nested_crossproduct", "flat_crossproduct"])
            g.hit("WorkflowStep", "scatter", isinstance(st["scatter"], list))
        steps.append(st)
    return steps


def h_run(g, rec, fn, f, ctx, depth):
    refs = ctx.get("runrefs") or []
    if refs and (g.rng.random() < 0.5 or depth > g.max_depth + 1):
        return g.rng.choice(refs)
    cls = [c for c in PROC if c in g.recs]
    if depth > g.max_depth:
        cls = [c for c in cls if c != "Workflow"]
    a, i = g.pick(rec, fn, cls)
    p = g.record(a, {"typedefs": [], "runrefs": refs}, depth + 1)
    return p


def h_default(g, rec, fn, f, ctx, depth):
    k = g.rng.random()
    if k < 0.25:
        return g.record("File", ctx, depth + 1)
    if k < 0.4:
        return g.record("Directory", ctx, depth + 1)
    return g.json()


def h_location(g, rec, fn, f, ctx, depth):
    return g.rng.choice(["file.txt", "sub/file.bam", "sub/../file.txt"])


def h_packages(g, rec, fn, f, ctx, depth):
    out = []
    for i in range(g.rng.choice([1, 1, 2])):
        p = g.record("SoftwarePackage", ctx, depth + 1)
        p["package"] = g.name("pkg")
        out.append(p)
    return out


def h_specs(g, rec, fn, f, ctx, depth):
    return ["http://example.com/spec/%d" % g.rng.randrange(9) for _ in range(g.rng.choice([0, 1, 2]))]


def h_intent(g, rec, fn, f, ctx, depth):
    return ["http://example.com/ext#intent%d" % g.rng.randrange(3) for _ in range(g.rng.choice([1, 2]))]


def h_fields(g, rec, fn, f, ctx, depth):
    t = f.type
    arr = t if kind(t) == "ArraySchema" else [x for x in t.schemas if kind(x) == "ArraySchema"][0]
    return [g.record(short(arr.items.name), ctx, depth + 1) for _ in range(g.rng.choice([0, 1, 2, 2]))]


def h_envdef(g, rec, fn, f, ctx, depth):
    return [{"envName": g.name("ENV"), "envValue": g.rng.choice(STRINGS + EXPRS)} for _ in range(g.rng.choice([0, 1, 2]))]


def h_secfiles(g, rec, fn, f, ctx, depth):
    if rec == "File":
        out = []
        for _ in range(g.rng.choice([0, 1, 2])):
            v = g.record(g.rng.choice(["File", "Directory"]), ctx, depth + 2)
            if v not in out:            # the reference reader drops repeated entries
                out.append(v)
        return out
    if "SecondaryFileSchema" not in g.recs:
        v = [g.rng.choice([".bai", "^.idx", "$(inputs.a)", "${return 1;}", ""]) for _ in range(g.rng.choice([1, 1, 2]))]
        v = sorted(set(v))
        if len(v) == 1 and g.rng.random() < 0.5:
            return v[0]
        return v
    out = []
    for _ in range(g.rng.choice([1, 1, 2])):
        d = {"pattern": g.rng.choice([".bai", "^.idx", "$(inputs.a)"])}
        # the shorthand and the loader both make 'required' explicit when present only
        k = g.rng.random()
        if k < 0.3: d["required"] = True
        elif k < 0.6: d["required"] = False
        elif k < 0.8: d["required"] = "$(inputs.req)"
        if d["pattern"] not in [x["pattern"] for x in out]:
            out.append(d)
    return out if len(out) != 1 or g.rng.random() < 0.5 else out[0]


def h_listing(g, rec, fn, f, ctx, depth):
    if rec == "Directory":
        return [g.record(g.rng.choice(["File", "Directory"]), ctx, depth + 2) for _ in range(g.rng.choice([0, 1, 2]))]
    if g.rng.random() < 0.2:
        return g.rng.choice(EXPRS)
    out = []
    for _ in range(g.rng.choice([0, 1, 2, 3])):
        k = g.rng.random()
        if k < 0.5: out.append(g.record("Dirent", ctx, depth + 1))
        elif k < 0.7: out.append(g.rng.choice(EXPRS))
        else: out.append(g.record(g.rng.choice(["File", "Directory"]), ctx, depth + 1))
    return out


def h_entry(g, rec, fn, f, ctx, depth):
    return g.rng.choice(STRINGS + EXPRS)


HOOKS = {
    ("*", "class"): h_class, ("*", "id"): h_id, ("*", "cwlVersion"): h_version, ("*", "inputs"): h_inputs,
    ("*", "outputs"): h_outputs, ("*", "type"): h_type, ("*", "items"): h_type, ("*", "symbols"): h_sym,
    ("*", "name"): h_name, ("*", "format"): h_format, ("*", "hints"): h_hints,
    ("*", "requirements"): h_requirements, ("SchemaDefRequirement", "types"): h_types,
    ("WorkflowStep", "in"): h_in, ("*", "source"): h_source, ("*", "outputSource"): h_source,
    ("WorkflowStep", "out"): h_out, ("WorkflowStep", "scatter"): h_scatter,
    ("WorkflowStep", "scatterMethod"): h_skip, ("*", "steps"): h_steps, ("WorkflowStep", "run"): h_run,
    ("*", "default"): h_default, ("*", "location"): h_location, ("*", "path"): h_location,
    ("SoftwareRequirement", "packages"): h_packages, ("*", "specs"): h_specs, ("*", "intent"): h_intent,
    ("*", "fields"): h_fields, ("EnvVarRequirement", "envDef"): h_envdef, ("*", "secondaryFiles"): h_secfiles,
    ("*", "listing"): h_listing, ("Dirent", "entry"): h_entry,
}
for _r in ("ArraySchema", "CommandInputArraySchema", "CommandOutputArraySchema", "InputArraySchema", "OutputArraySchema"):
    HOOKS[(_r, "type")] = h_const("array")
for _r in ("EnumSchema", "CommandInputEnumSchema", "CommandOutputEnumSchema", "InputEnumSchema", "OutputEnumSchema"):
    HOOKS[(_r, "type")] = h_const("enum")
for _r in ("RecordSchema", "CommandInputRecordSchema", "CommandOutputRecordSchema", "InputRecordSchema", "OutputRecordSchema"):
    HOOKS[(_r, "type")] = h_const("record")


def order_workflow(rec):
    return rec


def document(g, cls=None, runrefs=(), top_id=None):
    """One complete single-process document."""
    g.namespaces = False
    classes = [c for c in PROC if c in g.recs]
    cls = cls or g.rng.choice(classes + ["Workflow", "CommandLineTool"])
    ctx = {"runrefs": list(runrefs), "typedefs": []}
    tds = []
    if g.rng.random() < 0.3:
        tds = [g.name("TD") for _ in range(g.rng.choice([1, 2]))]
        ctx["typedefs"] = tds
    # workflows: outputs come before steps in the schema, so plan sources in two passes
    if cls == "Workflow":
        wf = g.record(cls, ctx, 0)
        src = ctx.get("sources") or []
        for o in wf["outputs"]:
            if src:
                o["outputSource"] = h_source(g, "WorkflowOutputParameter", "outputSource", None, ctx, 0)
        doc = wf
    else:
        doc = g.record(cls, ctx, 0)
    if tds:
        sd = {"class": "SchemaDefRequirement",
              "types": h_types(g, "", "", None, dict(ctx, want_typedefs=tds, typedefs=[]), 1)}
        doc["requirements"] = uniq([sd] + list(doc.get("requirements") or []))
    doc = {"cwlVersion": g.version, **doc}
    if top_id:
        doc["id"] = top_id
    if g.namespaces:
        doc["$namespaces"] = {"ex": EXT}
    return doc


# ---------------------------------------------------------------- shorthands
class Sugar:
    """Rewrites a fully spelled-out document with randomly chosen shorthands (p = probability at each place)."""

    def __init__(self, rng, version, p=0.6, p_import=0.0, files=None):
        self.rng, self.version, self.p, self.p_import = rng, version, p, p_import
        self.files = files if files is not None else {}
        self.used = {}
        self.nf = 0

    def yes(self, what, p=None):
        if self.rng.random() < (self.p if p is None else p):
            self.used[what] = self.used.get(what, 0) + 1
            return True
        return False

    def idmap(self, lst, key, pred, what):
        ks = [x.get(key) for x in lst]
        if not all(isinstance(x, dict) and isinstance(x.get(key), str) for x in lst) or len(set(ks)) != len(ks):
            return lst
        if not self.yes("map:" + what):
            return lst
        out = {}
        for x in lst:
            rest = {k: v for k, v in x.items() if k != key}
            if pred and set(rest) == {pred} and not isinstance(rest[pred], dict) and rest[pred] is not None \
                    and self.yes("short:" + what):
                out[x[key]] = rest[pred]
            else:
                out[x[key]] = rest
        return out

    def typ(self, t, top=True):
        """Type DSL. Only strings may stand inside a shorthand."""
        if isinstance(t, list):
            l = [self.typ(x, False) for x in t]
            if len(l) == 2 and l[0] == "null" and isinstance(l[1], str) and not l[1].endswith("?") \
                    and l[1] != "null" and self.yes("type?"):
                return l[1] + "?"
            return l
        if isinstance(t, dict):
            if t.get("type") == "array" and set(t) == {"type", "items"}:
                it = t["items"]             # shorthands are not expanded inside 'items'
                if isinstance(it, str) and self.yes("type[]"):
                    return it + "[]"
                return {"type": "array", "items": self.items(it)}
            out = {}
            for k, v in t.items():
                if k == "items":
                    v = self.items(v)
                elif k == "fields" and isinstance(v, list):
                    v = self.idmap([self.param(f) for f in v], "name", "type", "fields")
                elif k == "type" and v not in ("array", "record", "enum"):
                    v = self.typ(v)
                out[k] = v
            return out
        return t

    def items(self, t):
        if isinstance(t, dict):
            t = self.typ(t)
            return t if isinstance(t, dict) else {"type": "array", "items": t[:-2]}
        return [self.items(x) for x in t] if isinstance(t, list) else t

    def secfiles(self, v):
        if self.version == "v1.0":
            if isinstance(v, list) and len(v) == 1 and False:
                return v[0]
            return v
        lst = v if isinstance(v, list) else [v]
        out = []
        for d in lst:
            if isinstance(d, dict) and set(d) == {"pattern"} and not d["pattern"].endswith("?") and self.yes("secfile"):
                out.append(d["pattern"])
            elif isinstance(d, dict) and set(d) == {"pattern", "required"} and d["required"] is False and \
                    self.yes("secfile?"):
                out.append(d["pattern"] + "?")
            else:
                out.append(d)
        if len(out) == 1 and self.yes("secfile1"):
            return out[0]
        return out

    def param(self, p):
        out = {}
        for k, v in p.items():
            if k == "type":
                v = self.typ(v)
            elif k == "secondaryFiles":
                v = self.secfiles(v)
            elif k in ("doc", "label") and isinstance(v, str) and self.p_import and self.yes("$include", self.p_import):
                v = self.include(v)
            out[k] = v
        return out

    def newfile(self, ext):
        self.nf += 1
        return self.rng.choice(["", "sub/", "sub/deep/"]) + "inc%d%s" % (self.nf, ext)

    def include(self, text):
        fn = self.newfile(".txt")
        self.files[fn] = text
        return {"$include": fn}

    def importing(self, obj):
        fn = self.newfile(self.rng.choice([".yml", ".json"]))
        self.files[fn] = obj
        return {"$import": fn}

    def reqs(self, lst, what):
        out = []
        for r in lst:
            r = dict(r)
            c = r.get("class")
            if c == "EnvVarRequirement" and isinstance(r.get("envDef"), list):
                r["envDef"] = self.idmap(r["envDef"], "envName", "envValue", "envDef")
            elif c == "SoftwareRequirement" and isinstance(r.get("packages"), list):
                r["packages"] = self.idmap(r["packages"], "package", "specs", "packages")
            elif c == "SchemaDefRequirement":
                r["types"] = [self.typ(t) for t in r["types"]]
            elif c == "InlineJavascriptRequirement" and isinstance(r.get("expressionLib"), list) and self.p_import:
                r["expressionLib"] = [self.include(x) if self.yes("$include", self.p_import) else x
                                      for x in r["expressionLib"]]
            if self.p_import and c in ("DockerRequirement", "ResourceRequirement", "EnvVarRequirement",
                                       "SoftwareRequirement", "ShellCommandRequirement") \
                    and self.yes("$import:req", self.p_import):
                out.append(self.importing(r))
                continue
            out.append(r)
        if any("$import" in r for r in out):
            return out
        return self.idmap(out, "class", None, what)

    def proc(self, d):
        out = {}
        for k, v in d.items():
            if k in ("inputs", "outputs"):
                v = self.idmap([self.param(x) for x in v], "id", "type", k)
            elif k in ("requirements", "hints"):
                v = self.reqs(v, k)
            elif k == "steps":
                v = self.idmap([self.step(x) for x in v], "id", None, k)
            elif k in ("expression", "label", "doc") and isinstance(v, str) and self.p_import and \
                    self.yes("$include", self.p_import):
                v = self.include(v)
            out[k] = v
        return out

    def step(self, s):
        out = {}
        for k, v in s.items():
            if k == "in":
                v = self.idmap(v, "id", "source", k)
            elif k == "hints":
                v = self.idmap(v, "class", None, k)     # free-form inside a step
            elif k == "requirements":
                v = self.reqs(v, k)
            elif k == "run" and isinstance(v, dict):
                v = self.proc(v)
            elif k == "out":
                pass      # a step output written as {id: x} loads as an object, "x" as a string
            out[k] = v
        return out


def write_yaml(obj, rng=None):
    """One of many YAML/JSON spellings of obj."""
    import io, json
    from ruamel.yaml import YAML
    k = (rng.random() if rng else 0.5)
    if k < 0.25:
        return json.dumps(obj, ensure_ascii=False, indent=rng.choice([None, 1, 4]))
    y = YAML(typ="safe", pure=True)
    y.default_flow_style = False if k < 0.75 else (None if k < 0.9 else True)
    y.allow_unicode = True
    y.width = rng.choice([40, 80, 100000]) if rng else 80
    y.sort_base_mapping_type_on_output = False
    y.representer.ignore_aliases = lambda *a: True
    b = io.StringIO()
    y.dump(obj, b)
    return b.getvalue()


def write_doc(dirname, fname, obj, rng=None, files=None):
    import os
    for fn, content in (files or {}).items():
        p = os.path.join(dirname, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(content if isinstance(content, str) else write_yaml(content, rng))
    p = os.path.join(dirname, fname)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(write_yaml(obj, rng))
    return p
