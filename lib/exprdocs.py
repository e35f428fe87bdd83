"""Random CWL documents that use expressions, and their execution with cwltool.

The documents print everything a process can see (arguments, environment, working directory), so that two
documents that are meant to compute the same can be compared by their outputs.
"""
import contextlib, json, os, re, shutil, tempfile
from urllib.parse import quote, unquote
from ruamel.yaml import YAML

SCRIPT = ('for a in "$@"; do case "$a" in /*) printf "<"; cat "$a"; printf ">";; *) printf "[%s]" "$a";; esac; done; printf " F=%s B=%s" "$FOO" "$BAR"; for f in iw_* in* an* é*; do if [ -e "$f" ]; then '
          'printf " {%s:" "$f"; cat "$f"; printf "}"; fi; done; '
          'if [ -n "$DF" ]; then printf " D="; cat "$DF"; fi; printf "err" >&2; exit 0')
LIB = ["function twice(x) { return x + x; }", "var k0 = 3;\nfunction more(n) { return n + k0; }  // '\"",
       "function pick(l, i) { for (var j = 0; j < l.length; j++) { if (j == i) { return l[j]; } } return 'none'; }"]
STR = ["'a'", "\"it's\"", "'q\"x'", "'a b'", "'$(b)'", "'${'", "'}'", "')'", "'é'", "'\\\\'", "''", "'{[('", "\"\\\"\"", "'#'", "'`'"]
VALUES = ["", "xyz", "it's", 'a "q"', "é€😀", "$(1+1)", "a b  c", "back\\slash", "${return 1;}", "0", "null", "{\"a\": 1}", "x" * 50]
NAMES = {"string": ["x", "name", "a-b", "_s", "in", "X1"], "int": ["n", "num-1", "_i", "count"], "File": ["f", "the_file"],
         "string[]": ["l", "words"], "string?": ["o", "maybe"], "boolean": ["b", "flag"],
         "rec": ["rec", "a_record"], "enum": ["en", "choice"], "File[]": ["files", "more-files"], "int?": ["mi", "optional_int"]}
RECORD = {"type": "record", "fields": {"a": "string", "k": "int", "l": "string[]?"}}
TYPES = {"rec": RECORD, "enum": {"type": "enum", "symbols": ["p", "q-r", "t"]}}
TYPE_DEFS = [{"name": t + "_type", **d} for t, d in TYPES.items()]
KINDS = list(NAMES)


def ref(rng, name):
    if not re.match(r"^[A-Za-z_]\w*$", name) or rng.random() < 0.25:
        return "inputs[%s]" % (json.dumps(name) if rng.random() < 0.5 else "'%s'" % name)
    return "inputs." + name


class Lost(Exception):
    """cwltool reported an output file that is not there (it sometimes loses one of several of the same name)."""


class Exprs:
    """JavaScript over the inputs in `env` {name: type} and self of type `me`."""

    def __init__(self, rng, env, me=None, lib=False, loaded=()):
        self.rng, self.me, self.lib, self.loaded = rng, me, lib, loaded
        self.env = dict(env)

    def of(self, *types):
        c = [ref(self.rng, n) for n, t in self.env.items() if t in types]
        if self.me in types:
            c += ["self"] * 3
        return c

    def js(self, want, depth=0):
        rng, opts = self.rng, []
        deep = depth < 2
        if want == "string":
            opts += self.of("string") * 2 + [rng.choice(STR)]
            opts += [f + rng.choice([".basename", ".nameroot", ".nameext", "['basename']"]) for f in self.of("File")]
            opts += [f + ".contents" for f in self.of("File") if f in self.loaded]
            opts += ["(%s === null ? 'N' : %s)" % (o, o) for o in self.of("string?")]
            opts += [e + rng.choice([".a", "['a']"]) for e in self.of("rec")] + self.of("enum")
            opts += [l + ".join('+')" for l in self.of("string[]")]
            opts += [l + ".map(function(x) {return x.basename;}).join()" for l in self.of("File[]")]
            opts += ["JSON.stringify(%s)" % v for v in rng.sample(self.of("string", "int", "string[]", "string?", "boolean", "rec", "enum", "int?") + ["1"], 1)]
            opts += ["('' + %s)" % v for v in self.of("int", "boolean")[:1]]
            if deep:
                opts += ["(%s + %s)" % (self.js("string", depth + 1), self.js(rng.choice(["string", "int"]), depth + 1)),
                         "(%s ? %s : %s)" % (self.js("boolean", depth + 1), self.js("string", depth + 1), self.js("string", depth + 1)),
                         "(function(v) {return v + \"]\";})(%s)" % self.js("string", depth + 1)]
                if self.lib:
                    opts += ["twice(%s)" % self.js("string", depth + 1), "pick(%s, 0)" % self.js("string[]", depth + 1)]
        elif want == "int":
            opts += self.of("int") * 2 + [str(rng.randrange(20))]
            opts += [s + ".length" for s in self.of("string", "string[]", "File[]")]
            opts += [e + ".k" for e in self.of("rec")] + ["(%s || 7)" % o for o in self.of("int?")]
            if deep:
                opts += ["(%s + %s)" % (self.js("int", depth + 1), self.js("int", depth + 1)), "(%s * 2)" % self.js("int", depth + 1)]
                if self.lib:
                    opts += ["more(%s)" % self.js("int", depth + 1)]
        elif want == "boolean":
            opts += self.of("boolean") * 2 + ["(%s > %d)" % (self.js("int", depth + 1), rng.randrange(10)),
                                              "(%s == %s)" % (rng.choice(STR), self.js("string", depth + 1))]
            opts += ["(%s !== null)" % o for o in self.of("string?", "int?")]
        elif want == "string[]":
            opts += self.of("string[]") * 2 + ["[%s, %s]" % (self.js("string", depth + 1), self.js("string", depth + 1)), "['only']"]
        elif want == "File":
            opts += self.of("File")
        elif want == "string?":
            opts += self.of("string?") + ["null", self.js("string", depth + 1)]
        elif want == "int?":
            opts += self.of("int?") + ["null", self.js("int", depth + 1)]
        elif want == "fname":
            opts += ["'o' + %s" % i for i in self.of("int")] + ["'out' + 'f'", "['o', 'p'].join('-')"]
        return rng.choice(opts) if opts else None

    def expr(self, want, interpolate=True, real=True):
        """An expression of the wanted type, as it stands in a document."""
        rng = self.rng
        if want == "any":
            want = rng.choice(["string", "string", "int", "string[]", "string?", "boolean"])
        js = self.js(want)
        if js is None:
            return None
        if real and want in ("string", "fname", "string?") and "(" not in js and "+" not in js and "[" not in js:
            js = "[%s][0]" % js     # not only a parameter reference
        style = rng.choice(["paren"] * 4 + ["brace"] * 3 + (["text"] * 3 if want in ("string", "fname") and interpolate else []))
        if style == "paren":
            return rng.choice(["$(%s)", "$(%s)", "$( %s )", "$(%s\n)"]) % js
        if style == "brace":
            return rng.choice(["${return %s;}", "${ return %s }", "${\n  var r = %s;\n  // done\n  return r;\n}",
                               "${if (1 < 2) {return %s;} else {return 'never }';}}", "${var q = \"}\"; return %s;}\n"]) % js
        if want == "fname":
            return "a$(%s)" % js
        second = self.js(rng.choice(["string", "int"]))
        return rng.choice(["pre $(%s) post", "$(%s)$(%s)", "it's \"$(%s)\" - ${return %s;}", "(%s: $(%s)" % ("\\\\" if rng.random() < 0.3 else "x", "%s"),
                           "a\nb$(%s)\n", "{$(%s)}"]).replace("%s", "\0").replace("\0", js, 1).replace("\0", second)


def js_req(rng, lib):
    return {"class": "InlineJavascriptRequirement",
            **({"expressionLib": [{"$include": "@ROOT@lib.js"}] if rng.random() < 0.2 else LIB} if lib else {})}


TTL = "<http://example.org/f#narrow> <http://www.w3.org/2000/01/rdf-schema#subClassOf> <http://example.org/f#wide> .\n"
TEXTS = {"lib.js": "\n".join(LIB), "types.yml": json.dumps(TYPE_DEFS), "data.dat": "data é\n", "formats.ttl": TTL, "ext/formats.ttl": TTL, "ext/data-2.dat": "other data"}   # files besides the documents
DEFAULTS = {"string": ["dé'f", "$(x)"], "string?": ["d", "d\"q"], "int": [0, 4], "int?": [0, 6],
            "File": [{"class": "File", "location": "@ROOT@data.dat"}, 
                     {"class": "File", "location": "@ROOT@ext/data-2.dat"}]}


def placed(x, name):
    """The document as it is to be written in the file of this name."""
    return json.loads(json.dumps(x).replace("@ROOT@", "../" * name.count("/")))


class Docs:
    """Features of a document: `seen` counts those with expressions."""

    def __init__(self, rng, version, etools, contents=True):
        self.rng, self.version, self.etools = rng, version, etools
        # cwltool cannot load the contents of a File[] for an ExpressionTool in v1.1 and v1.2
        self.contents = contents and (version == "v1.0" or not etools)
        self.tools = 0
        self.seen = {}
        self.schema = rng.choice([None] * 6 + ["@ROOT@types.yml"])   # where named types are defined
        self.files = {}
        self.format = None
        self.defaults = set()

    def cwl_type(self, t):
        if t not in TYPES:
            return t
        return json.loads(json.dumps(TYPES[t])) if self.schema is None else self.schema + "#" + t + "_type"

    def types_req(self, process):
        """Add the definitions of the named types to a process that uses them."""
        if self.schema is not None and '_type"' in json.dumps(process):
            self.see("SchemaDef")
            r = {"types": [{"$import": self.schema}] if self.schema else TYPE_DEFS}
            if isinstance(process["requirements"], dict):
                process["requirements"]["SchemaDefRequirement"] = r
            else:
                process["requirements"].append({"class": "SchemaDefRequirement", **r})
        return process

    def see(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def names(self, types):
        out = {}
        for t in types:
            free = [n for n in NAMES[t] if n not in out]
            if free:
                out[self.rng.choice(free)] = t
        return out

    def tool(self, env, lib, density=0.35):
        """(CommandLineTool without cwlVersion, {output: type})"""
        rng = self.rng
        own = lib or rng.random() < 0.3
        E = Exprs(rng, env, lib=own)
        on = lambda p=density: rng.random() < p
        inputs, reqs, hints = {}, [], []
        given = rng.random() < 0.15                              # a File that is not an input of the step
        if given:
            self.see("default File")
            inputs["dflt_file"] = {"type": "File", "default": rng.choice(DEFAULTS["File"])}
            E.env["dflt_file"] = "File"
        for name, t in env.items():
            inp = {"type": self.cwl_type(t)}
            if t.endswith("?") and rng.random() < 0.3:
                self.see("inner default")
                inp["default"] = rng.choice(DEFAULTS[t])
            if t not in ("boolean", "rec", "File[]") and on(0.5):
                inp["inputBinding"] = {"position": rng.randrange(4)}
                if rng.random() < 0.3:
                    inp["inputBinding"]["prefix"] = "-" + name
                if t != "string[]" and on(0.5) or t == "File":
                    e = Exprs(rng, env, me=t, lib=own)
                    if t.endswith("?"):
                        e.me = None
                    inp["inputBinding"]["valueFrom"] = e.expr("any") if t != "File" else rng.choice([e.expr("string"), e.expr("string"), "$(self.path)"])
                    self.see("inputBinding")
            inputs[name] = inp
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if on(0.7):
                self.see("arguments")
                a = E.expr("any")
                if on(0.3):
                    a = {"valueFrom": a, "position": rng.randrange(5), "prefix": rng.choice(["-p", "--q="]), "separate": rng.random() < 0.5}
            else:
                a = rng.choice(["const", "$(runtime.cores)"] + ["$(%s)" % r for r in E.of("string", "int")] + ["$(%s.path)" % r for r in E.of("File")])
            args.append(a)
        if given or on():
            self.see("EnvVar")
            env_def = {"FOO": E.expr("string")}
            if on(0.4):
                env_def["BAR"] = rng.choice([E.expr("string"), "bar"])
            if given:
                env_def["DF"] = "$(inputs.dflt_file.path)"
            reqs.append({"class": "EnvVarRequirement", "envDef": env_def if rng.random() < 0.5 else
                         [{"envName": k, "envValue": v} for k, v in env_def.items()]})
        if on(0.2):
            self.see("Resource")
            reqs.append({"class": "ResourceRequirement", "coresMin": rng.choice(["$(1 + (%s) %% 2)" % E.js("int"), "${return 1 + 1;}"])})
        if on():
            self.see("InitialWorkDir")
            listing = []
            for i in range(rng.choice([1, 1, 2])):
                kind = rng.choice(["entry", "entry", "name", "both", "file", "expr"])
                has_file = E.of("File")
                if kind in ("file", "expr") and has_file and i == 0:
                    f = rng.choice(has_file)
                    listing.append("${return %s;}" % f if kind == "expr" else {"entry": rng.choice(["$(%s)", "${return %s;}"]) % f})
                    continue
                name, entry = "iw_%d" % i, "constant"
                if kind in ("name", "both"):
                    name = "$('iw_%d' + %s)" % (i, E.js("int") if False else "'q'")
                if kind != "name":
                    entry = E.expr("string")
                listing.append({"entryname": name, "entry": entry})
            reqs.append({"class": "InitialWorkDirRequirement", "listing": listing})
        outs, types = {}, {}
        self.tools += 1
        ext = "%d.txt" % self.tools if self.tools > 1 else ".txt"
        stdout = "out" + ext
        if on(0.3):
            self.see("stdout")
            stdout = E.expr("fname").strip() + ext
            if stdout.count("$") == 1 and stdout.startswith("${"):
                stdout = "$('o' + 'u' + 't')" + ext
        glob = "*.txt"
        if on(0.25) and stdout == "out" + ext:
            self.see("glob")
            glob = rng.choice(["$('out' + '%s')" % ext, "${return ['out%s', 'none.' + 'x'];}" % ext, "o$('u' + 't')" + ext])
        t = {"class": "CommandLineTool", "baseCommand": ["sh", "-c", SCRIPT, "sh"], "arguments": args, "inputs": inputs}
        if on(0.25):
            outs["out"], types["out"] = ({"type": "stdout"} if rng.random() < 0.5 else "stdout"), "File"
            if on(0.5):
                stdout = None
        else:
            outs["out"], types["out"] = {"type": "File", "outputBinding": {"glob": glob}}, "File"
        if stdout:
            t["stdout"] = stdout
        elif any("glob" in str(o) for o in outs.values()):
            t["stdout"] = "out" + ext
        if on(0.2):
            t["stderr"] = rng.choice(["e.err", "$('e' + 1).err"])
            outs["err"], types["err"] = rng.choice(["stderr", {"type": "File", "outputBinding": {"glob": "*.err"}}]), "File"
        for i in range(rng.choice([0, 0, 1, 1, 2])):
            self.see("outputEval")
            want = rng.choice(["string", "int", "string[]"])
            b = {}
            e = Exprs(rng, env, lib=own)
            if rng.random() < 0.7 and t.get("stdout"):
                b["glob"] = glob
                e.env = dict(env)
                js = rng.choice(["self.length", "self[0].basename.length", "self[0].size"]) if want == "int" else \
                    "self[0].nameext + %s" % e.js("string") if want == "string" else "self.map(function(x) {return x.nameext;})"
                if self.contents and rng.random() < 0.4:
                    b["loadContents"] = True
                    js = {"int": "self[0].contents.length", "string": "self[0].contents + '!'", "string[]": "self[0].contents.split(']')"}[want]
                    self.see("loadContents")
                b["outputEval"] = rng.choice(["$(%s)", "${return %s;}"]) % js
            else:
                b["outputEval"] = e.expr(want, interpolate=want == "string")
            outs["r%d" % i], types["r%d" % i] = {"type": want, "outputBinding": b}, want
        t["outputs"] = outs
        self.hints(t, any(q["class"][:3] in ("Env", "Res") for q in reqs), E, self.tools)
        t["requirements"] = [js_req(rng, own)] + reqs if own or rng.random() < 0.9 else reqs
        t["requirements"] = [r for r in t["requirements"]]
        if not any(r["class"] == "InlineJavascriptRequirement" for r in t["requirements"]):
            t["requirements"].insert(0, js_req(rng, False))
        if rng.random() < 0.2:
            t["requirements"] = {r.pop("class"): r for r in (dict(r) for r in t["requirements"])}
        return self.types_req(t), types

    def hints(self, process, taken, E=None, n=0):
        """Hints that can be seen to count, and others."""
        rng, hints = self.rng, []
        if rng.random() > 0.2:
            return
        if not taken and rng.random() < 0.5:
            self.see("hint EnvVar")
            hints.append({"class": "EnvVarRequirement", "envDef": {"BAR": E.expr("string") if E and rng.random() < 0.5 else "of a hint"}})
        if rng.random() < 0.5:
            self.see("hint Resource")
            hints.append({"class": "ResourceRequirement", "coresMin": "$(1 + 1)" if E and rng.random() < 0.5 else 2})
        if rng.random() < 0.5:
            self.see("hint of another kind")
            hints.append({"class": "http://example.org/x#Hint", "http://example.org/x#value": "hint %s %d" % (process.get("class", "Step"), n)})
        if rng.random() < 0.2:
            hints.append({"class": "InlineJavascriptRequirement"})
        if hints:
            rng.shuffle(hints)
            process["hints"] = hints

    def etool(self, env, lib):
        rng = self.rng
        own = lib or rng.random() < 0.3
        E = Exprs(rng, env, lib=own)
        self.see("ExpressionTool")
        s, i = E.js("string"), E.js("int")
        return self.types_req({"class": "ExpressionTool", "requirements": [js_req(rng, own)], "inputs": {n: self.cwl_type(t) if isinstance(self.cwl_type(t), str) else {"type": self.cwl_type(t)} for n, t in env.items()},
                "outputs": {"r": "string", "m": "int"},
                "expression": rng.choice(["${return {'r': %s, 'm': %s};}", "$({'r': %s, 'm': %s})",
                                          "${\n  var d = {};\n  d.r = %s;\n  d.m = %s;\n  return d;\n}\n"]) % (s, i)}), {"r": "string", "m": "int"}

    def picked(self, want, sources):
        """What picks a value of the wanted type from several sources, some of them null: {source, pickValue, linkMerge}, or None."""
        rng = self.rng

        def having(t):
            return ([s for s, x in sources.items() if x == t + "?" or x == ["null", t]], [s for s, x in sources.items() if x == t])
        options = []
        if want in ("string", "int", "boolean", "File", "string[]"):
            maybe, sure = having(want)
            if maybe and sure:
                some = rng.sample(maybe, min(len(maybe), rng.choice([1, 1, 2])))
                some.insert(rng.choice([len(some), len(some), rng.randrange(len(some) + 1)]), rng.choice(sure))
                options.append({"source": some, "pickValue": "first_non_null"})
            if len(maybe) > 1:
                options.append({"source": rng.sample(maybe, 2), "pickValue": rng.choice(["the_only_non_null", "first_non_null"])})
        if want[-2:] == "[]":
            maybe, sure = having(want[:-2])
            some = maybe + sure
            if len(some) > 1 and maybe:
                options.append({"source": rng.sample(some, rng.choice([2, min(3, len(some))])), "pickValue": "all_non_null"})
            arrays = [s for s, x in sources.items() if x == {"type": "array", "items": ["null", want[:-2]]}]
            if arrays:
                options.append({"source": rng.choice(arrays), "pickValue": "all_non_null"})
            lists = having(want)[1] + arrays
            if lists and maybe:
                options.append({"source": rng.choice([[rng.choice(lists), rng.choice(maybe)], [rng.choice(maybe), rng.choice(lists)]]),
                                "linkMerge": "merge_flattened", "pickValue": "all_non_null"})
        if not options:
            return None
        o = rng.choice(options)
        if isinstance(o["source"], list) and "linkMerge" not in o and rng.random() < 0.2:
            o["linkMerge"] = "merge_nested"
        self.see("pickValue")
        self.see(o["pickValue"])
        return o

    def step_input(self, want, sources, loadable):
        """A step input for a process input of the wanted type; sources {name: type}."""
        rng = self.rng
        if self.version == "v1.2" and rng.random() < 0.2:
            p = self.picked(want, sources)
            if p:
                self.see("pickValue in a step")
                return p
        sources = {s: t for s, t in sources.items() if isinstance(t, str)}
        fit = [s for s, t in sources.items() if t == want or (want == "string?" and t == "string")]
        kind = rng.random()
        if fit and kind < 0.45:
            s = rng.choice(fit)
            return s if rng.random() < 0.5 else {"source": s}
        if want in ("File", "rec", "enum", "File[]"):
            return rng.choice(fit)
        self.see("valueFrom")
        names = list(sources)
        how = rng.choice(["source", "source", "source", "none", "default", "both", "many", "flat", "picked"])
        inp, me = {}, None
        if how == "picked":
            me = rng.choice(["string", "int", "string[]", "boolean"])
            inp = self.picked(me, sources) if self.version == "v1.2" else None
            if inp is None:
                inp, me = {}, None
        if how == "source" or how == "both":
            s = rng.choice(names)
            inp["source"], me = s, sources[s]
            if how == "both" and me == "string?":
                inp["default"], me = "dflt", "string"
            if me == "File" and self.version != "v1.0" and rng.random() < 0.5:
                inp["loadContents"] = True
        elif how == "default":
            inp["default"], me = "déf", "string"
        elif how == "many":
            pair = [rng.choice([s for s in names if sources[s] in ("string", "string[]")]) for _ in range(2)]
            if all(sources[p] == "string" for p in pair):
                inp["source"], me = pair, "string[]"
        elif how == "flat":
            pair = [rng.choice([s for s in names if sources[s] in ("string", "string[]")]) for _ in range(2)]
            inp["source"], inp["linkMerge"], me = pair, "merge_flattened", "string[]"
        if me in ("string[]?", "File?"):
            me = None
        return inp, me

    def step(self, run, types, env, sources, lib, allow_scatter=True):
        """A step for the process `run` with inputs env; {output: type} as seen from the workflow."""
        rng = self.rng
        ins, pending, plain = {}, [], {}
        for name, t in env.items():
            v = self.step_input(t, sources, self.version != "v1.0")
            # (for cwltool, but not in the standard, the tool's default is the step's when the source is null)
            inner = isinstance(run["inputs"].get(name), dict) and "default" in run["inputs"][name]
            if isinstance(v, tuple):
                pending.append((name, t, v[0], None if inner and v[1] and "?" in v[1] else v[1]))
            else:
                ins[name] = v
                if not (inner and "?" in t):
                    plain[name] = t
        if rng.random() < 0.3:                                   # an input that only expressions use
            s = rng.choice([s for s, t in sources.items() if isinstance(t, str)])
            if sources[s] in NAMES:
                ins["extra"], plain["extra"] = s, sources[s]
        scatter, method = [], None
        array_sources = [s for s, t in sources.items() if t == "string[]"]
        if allow_scatter and array_sources and rng.random() < 0.3:
            cand = [n for n, t in plain.items() if t == "string"]
            rng.shuffle(cand)
            for n in cand[:rng.choice([1, 1, 2])]:
                ins[n] = {"source": rng.choice(array_sources)} if not scatter else {"source": ins[scatter[0]]["source"]}
                scatter.append(n)
            if not scatter and pending and pending[0][1] != "File":
                name, t, inp, me = pending[0]
                for k in ("default", "linkMerge", "loadContents", "pickValue"):
                    inp.pop(k, None)
                inp["source"] = rng.choice(array_sources)
                pending[0] = (name, t, inp, "string")
                scatter.append(name)
        refs_only = rng.random() < 0.1
        for name, t, inp, me in pending:
            e = Exprs(rng, plain, me=me, lib=lib)
            if inp.get("loadContents"):
                e.loaded = ("self",)
            x = e.expr(t, interpolate=t == "string")
            if refs_only and t == "string" and e.of("string"):
                x = "$(%s)" % rng.choice(e.of("string"))
            inp["valueFrom"] = x
            ins[name] = inp
        st = {"in": ins, "run": run, "out": list(types)}
        out = dict(types)
        if scatter:
            self.see("scatter")
            st["scatter"] = scatter[0] if len(scatter) == 1 and rng.random() < 0.6 else scatter
            if len(scatter) > 1:
                st["scatterMethod"] = "dotproduct"
            out = {k: t + "[]" for k, t in out.items()}
        if self.version == "v1.2" and rng.random() < 0.25:
            self.see("when")
            e = Exprs(rng, {**plain, **{n: t for n, t, _, _ in pending if rng.random() < 0.5}}, lib=lib)
            st["when"] = rng.choice(["$(%s)", "${return %s;}"]) % e.js("boolean")
            out = {k: {"type": "array", "items": ["null", t[:-2]]} if scatter and not t.endswith("[][]") else
                   ({"type": "array", "items": ["null", {"type": "array", "items": t[:-4]}]} if scatter else
                    ["null", t] if not t.endswith("[]") else ["null", {"type": "array", "items": t[:-2]}]) for k, t in out.items()}
        else:
            out = {k: t if not t.endswith("[][]") else {"type": "array", "items": {"type": "array", "items": t[:-4]}} for k, t in out.items()}
        # (the most specific requirement counts, but not with cwltool for those of steps with sub-workflows)
        if rng.random() < 0.15 and "EnvVar" not in json.dumps([run, self.files]):
            self.see("step EnvVar")
            e = Exprs(rng, env if run["class"] != "Workflow" else {}, lib=False)
            st["requirements"] = [{"class": "EnvVarRequirement", "envDef": {"FOO": e.expr("string")}}]
        elif rng.random() < 0.1 and run["class"] != "ExpressionTool":
            self.hints(st, "EnvVar" in json.dumps([run, self.files]), Exprs(rng, env if run["class"] != "Workflow" else {}, lib=False))
        return st, out

    def workflow(self, env, lib, depth=0):
        rng = self.rng
        sources, steps, outs, types = dict(env), {}, {}, {}
        own = lib or rng.random() < 0.3
        names = rng.sample(["zs", "qa", "a_b", "step-1", "main", "second", "t2"], rng.choice([1, 1, 2, 3]))
        for sname in names:
            want = self.names(rng.sample(KINDS, rng.choice([1, 2, 3])))
            if "File" not in sources.values():
                want = {n: t for n, t in want.items() if t != "File"}
            want = {n: t for n, t in want.items() if t not in ("rec", "enum", "File[]") or t in sources.values()} or {"x": "string"}
            r = rng.random()
            if r < 0.12 and depth < 2:
                self.see("sub-workflow")
                if "string" not in want.values():
                    want["x"] = "string"
                run, rt = self.workflow(want, own, depth + 1)
                if rng.random() < 0.3:
                    run["id"] = "inner"
            elif r < 0.3:
                run, rt = self.etool(want, own)
            else:
                run, rt = self.tool(want, own, density=rng.choice([0, 0.2, 0.4]))
            if isinstance(rt, dict) and any(not isinstance(t, str) for t in rt.values()):
                st, ot = self.step(run, {k: t for k, t in rt.items() if isinstance(t, str)}, want, sources, own)
            else:
                st, ot = self.step(run, rt, want, sources, own)
            if not st["out"]:
                continue
            if rng.random() < 0.2:
                fn = "%ssub_%d_%s.cwl" % (rng.choice(["", "ext/"]), len(self.files), sname)
                self.files[fn] = placed(dict(run, cwlVersion=self.version), fn)
                st["run"] = "@ROOT@" + fn
                self.see("external")
            steps[sname] = st
            for o, t in ot.items():
                on = ("%s_%s" % (sname, o)).replace("-", "_")
                outs[on] = {"type": t, "outputSource": "%s/%s" % (sname, o)}
                types[on] = t
                if t in ("string", "int", "File", "string[]"):
                    sources["%s/%s" % (sname, o)] = t
                elif t in (["null", "string"], ["null", "int"], ["null", "File"]) or t in (
                        {"type": "array", "items": ["null", "string"]}, {"type": "array", "items": ["null", "int"]},
                        {"type": "array", "items": ["null", "File"]}):
                    sources["%s/%s" % (sname, o)] = t
        if self.version == "v1.2":
            for n in ("picked", "chosen"):
                t = rng.choice(["string", "int", "boolean", "string[]", "string[]", "int[]", "File", "File[]"])
                p = self.picked(t, sources) if rng.random() < 0.4 else None
                if p:
                    self.see("pickValue in an output")
                    outs[n] = {"type": t, "outputSource": p.pop("source"), **p}
                    types[n] = t
        if rng.random() < 0.2:                                   # names may contain "/": only of steps
            pass
        reqs = [{"class": c} for c in ("StepInputExpressionRequirement", "MultipleInputFeatureRequirement", "ScatterFeatureRequirement",
                                       "SubworkflowFeatureRequirement")] + [js_req(rng, own)]
        if rng.random() < 0.25 and depth == 0:
            self.see("workflow EnvVar")
            reqs.append({"class": "EnvVarRequirement", "envDef": {"BAR": rng.choice(["$('a' + 1)", "x$(1 + 2)y"])}})
        rng.shuffle(reqs)
        wf = {"class": "Workflow", "requirements": reqs, "inputs": {n: {"type": self.cwl_type(t)} for n, t in env.items()},
              "outputs": outs, "steps": steps}
        self.hints(wf, "EnvVar" in json.dumps([wf, self.files]), Exprs(rng, {}, lib=False) if depth == 0 else None, depth)
        return self.types_req(wf), types

    def document(self):
        rng = self.rng
        env = self.names(["string", "int", "File", "string[]", "string?", "boolean"] + rng.sample(["rec", "enum", "int?", "File[]"], rng.choice([0, 0, 1, 3])))
        kind = rng.choice(["tool", "tool", "workflow", "workflow", "workflow", "etool"] if rng.random() < 0.5 else ["tool", "workflow"])
        if kind == "workflow":
            doc, _ = self.workflow(env, False)
        elif kind == "tool":
            doc, _ = self.tool(env, False, density=rng.choice([0.1, 0.3, 0.6]))
        else:
            doc, _ = self.etool(env, False)
        if rng.random() < 0.2:
            doc["id"] = rng.choice(["proc", "doc", "my-process"])
        for n, t in env.items():
            if t in DEFAULTS and rng.random() < 0.2:
                self.see("default")
                self.defaults.add(n)
                if not isinstance(doc["inputs"][n], dict):
                    doc["inputs"][n] = {"type": doc["inputs"][n]}
                doc["inputs"][n]["default"] = rng.choice(DEFAULTS[t])
        doc = dict(doc, cwlVersion=self.version)
        files = [n for n, t in env.items() if t == "File"]
        if rng.random() < 0.2:
            self.see("format")
            doc["$namespaces"] = {"ex": "http://example.org/f#", "other": "http://example.com/"}
            for n in files:
                doc["inputs"][n] = dict(doc["inputs"][n] if isinstance(doc["inputs"][n], dict) else {"type": doc["inputs"][n]}, format="ex:narrow")
                if "default" in doc["inputs"][n]:
                    doc["inputs"][n]["default"] = dict(doc["inputs"][n]["default"], format="http://example.org/f#narrow")
            for n, o in doc["outputs"].items():
                if isinstance(o, dict) and o.get("type") in ("File", "stdout"):
                    o["format"] = rng.choice(["ex:out", "http://example.com/out"] + ["$(inputs.%s.format)" % n for n in files if n.isalnum() and doc["class"] != "Workflow"])
            self.format = "http://example.org/f#narrow"
            if rng.random() < 0.6:
                doc["$schemas"] = ["@ROOT@" + rng.choice(["formats.ttl", "ext/formats.ttl"])]
                for n in files:
                    doc["inputs"][n]["format"] = "ex:wide"
        return placed(doc, "doc"), env

    def job_file(self, d):
        p = os.path.join(d, self.rng.choice(["in.dat", "an_input.dat", "in.tar.gz", "é.dat"]))
        if not os.path.exists(p):
            with open(p, "w", encoding="utf-8") as f:
                f.write(self.rng.choice(["hello\n", "é", "", "a\nb\n"]))
        return {"class": "File", "location": "file://" + quote(p), **({"format": self.format} if self.format else {})}

    def job(self, env, d):
        rng, job = self.rng, {}
        for n, t in env.items():
            if n in self.defaults and rng.random() < 0.6:
                continue
            if t == "File":
                job[n] = self.job_file(d)
            elif t == "File[]":
                job[n] = [self.job_file(d) for _ in range(rng.choice([0, 1, 2, 3]))]
            elif t == "string":
                job[n] = rng.choice(VALUES)
            elif t == "int":
                job[n] = rng.choice([0, 1, 5, 17])
            elif t == "string[]":
                job[n] = [rng.choice(VALUES) for _ in range(rng.choice([1, 2, 3, 0]))]
            elif t == "boolean":
                job[n] = rng.random() < 0.5
            elif t == "rec":
                job[n] = {"a": rng.choice(VALUES), "k": rng.randrange(9), "l": rng.choice([None, [], ["x", "y z"]])}
            elif t == "enum":
                job[n] = rng.choice(["p", "q-r", "t"])
            elif t == "int?":
                if rng.random() < 0.6:
                    job[n] = rng.choice([0, 3, None])
            elif rng.random() < 0.5:
                job[n] = rng.choice(VALUES + [None])
        return job


# ---------------------------------------------------------------- execution

HEX = re.compile(r"[0-9a-f]{40}")    # file names of stdout and stderr


def norm(x):
    """Outputs without what is different in every run."""
    if isinstance(x, dict):
        if x.get("class") == "File":
            with open(unquote(x["location"][7:]), encoding="utf-8", errors="replace") as f:
                text = f.read()
            return {"class": "File", "basename": norm(x["basename"]), "text": norm(text), "format": x.get("format"), "secondaryFiles": [norm(y) for y in x.get("secondaryFiles", [])]}
        if x.get("class") == "Directory":
            p = unquote(x["location"][7:])
            return {"class": "Directory", "tree": sorted(os.path.relpath(os.path.join(a, f), p) for a, _, fs in os.walk(p) for f in fs)}
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, str):
        return HEX.sub("RANDOM", x)
    return [norm(v) for v in x] if isinstance(x, list) else x


def node_path(scratch):
    """cwl-expression-refactor makes tools that run "nodejs"."""
    b = os.path.join(scratch, "bin")
    os.makedirs(b, exist_ok=True)
    with contextlib.suppress(FileExistsError):
        os.symlink(shutil.which("node"), os.path.join(b, "nodejs"))
    if not os.environ["PATH"].startswith(b + ":"):
        os.environ["PATH"] = b + ":" + os.environ["PATH"]


def write_texts(d):
    for f, text in TEXTS.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w", encoding="utf-8") as fh:
            fh.write(text)


def execute(path, job, d):
    """Outputs of the document with cwltool; raises if it does not succeed."""
    import logging
    import cwltool.factory
    from cwltool.context import RuntimeContext
    logging.getLogger("cwltool").setLevel(100)
    w = tempfile.mkdtemp(dir=d)
    for sub in "out", "tmp":
        os.mkdir(os.path.join(w, sub))
    old = os.getcwd()
    os.chdir(w)
    try:
        rc = RuntimeContext({"outdir": w + "/out", "tmpdir_prefix": w + "/tmp/t", "tmp_outdir_prefix": w + "/tmp/to", "use_container": False})
        f = cwltool.factory.Factory(runtime_context=rc)
        with open(os.devnull, "w") as n, contextlib.redirect_stderr(n), contextlib.redirect_stdout(n):
            out = f.make(path)(**json.loads(json.dumps(job)))
        try:
            return norm(out)
        except FileNotFoundError as e:
            raise Lost(str(e)) from e
    finally:
        os.chdir(old)
        shutil.rmtree(w, ignore_errors=True)


# ---------------------------------------------------------------- files

def write(path, doc, rng=None):
    with open(path, "w", encoding="utf-8") as f:
        if rng and rng.random() < 0.5:
            f.write("#!/usr/bin/env cwl-runner\n")
            YAML(typ="safe", pure=True).dump(doc, f)
        else:
            json.dump(doc, f, ensure_ascii=False, indent=1)


def read(path):
    with open(path, encoding="utf-8") as f:
        return YAML(typ="safe", pure=True).load(f)


def tree(d, skip=()):
    out = {}
    for a, dirs, fs in os.walk(d):
        dirs[:] = [x for x in dirs if os.path.join(a, x) not in skip]
        for f in fs:
            with open(os.path.join(a, f), "rb") as fh:
                out[os.path.relpath(os.path.join(a, f), d)] = fh.read()
    return out


def classes(x):
    if isinstance(x, dict):
        if isinstance(x.get("class"), str):
            yield x["class"], x
        for v in x.values():
            yield from classes(v)
    elif isinstance(x, list):
        for v in x:
            yield from classes(v)


def attempt(path, job, d):
    try:
        return execute(path, job, d), None
    except Lost:
        return None, "lost"
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[-900:])


# ---------------------------------------------------------------- what is left

REF = re.compile(r"""^\(\w+(\.\w+|\['([^']|\\')+'\]|\["([^"]|\\")+"\]|\[[0-9]+\])*\)$""", re.U)


def expressions(s):
    """JavaScript in a string (not parameter references, not what is escaped)."""
    i = 0
    while i < len(s) - 1:
        if s[i] == "\\":
            i += 2
            continue
        if s[i] == "$" and s[i + 1] in "({":
            if s[i + 1] == "{":
                yield s[i:i + 40]
                return
            depth, j = 0, i + 1
            while j < len(s):
                depth += {"(": 1, ")": -1}.get(s[j], 0)
                j += 1
                if depth == 0:
                    break
            if not REF.match(s[i + 1:j]):
                yield s[i:j][:60]
            i = j
            continue
        i += 1


def runs_tools(x):
    """Whether a workflow has tools (those of other documents are not looked at and count)."""
    if isinstance(x, dict):
        if x.get("class") == "CommandLineTool" or isinstance(x.get("run"), str):
            return True
        return any(runs_tools(v) for v in x.values())
    return isinstance(x, list) and any(runs_tools(v) for v in x)


def left(x, path=""):
    """Places of a saved document with expressions: (path, expression); not those of ExpressionTools and of tools that run node."""
    if isinstance(x, dict):
        if (x.get("class") == "Workflow" or "run" in x) and not runs_tools(x):  # requirements without effect stay
            x = {k: v for k, v in x.items() if k not in ("requirements", "hints")}
        if x.get("class") == "ExpressionTool":
            x = {k: v for k, v in x.items() if k not in ("expression", "requirements")}
        if x.get("class") == "CommandLineTool" and str(x.get("baseCommand", [""])[0] if isinstance(x.get("baseCommand"), list) else "") == "nodejs":
            x = {k: v for k, v in x.items() if k != "requirements"}
        for k, v in x.items():
            if k not in ("default", "expressionLib", "doc", "label"):
                yield from left(v, path + "/" + str(k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from left(v, "%s[%d]" % (path, i))
    elif isinstance(x, str):
        if "baseCommand" not in path:
            for e in expressions(x):
                yield path, e
