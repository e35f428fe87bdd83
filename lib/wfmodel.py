"""Random workflows whose source, sink and step types are known by construction (for C10, C11, C21).

A workflow is written to files and described by a model; the model computes what CWL says the type of
each source, merged source list and step input is, sharing no code with the library."""
from __future__ import annotations
import json, os
import tymodel as T

NS = {"cwltool": "http://commonwl.org/cwltool#"}


def merged(types, listed, link, pick, version):
    """Type of one or several sources (listed: given as a list of more than one)."""
    u = frozenset().union(*types)
    if listed:
        t = T.arr(T.items(T.flatten1(u))) if link == "merge_flattened" else T.arr(u)
    else:
        t = T.arr(u) if link == "merge_nested" else T.flatten1(u) if link == "merge_flattened" else u
    return picked(t, pick) if version == "v1.2" else t


def picked(t, pick):
    if pick and len(t) == 1 and next(iter(t))[0] == "a":
        it = T.items(t)
        it = (it - {T.NULL}) or it
        return it if pick in ("first_non_null", "the_only_non_null") else T.arr(it)
    return t


FALSY = [0, False, "", [], {}, 1.5]      # (defaults count whatever their value is)


class Step:
    pass


class WF:
    def __init__(self, rng, version, d, n_steps=None, p_any=0.05, prefix=""):
        self.rng, self.version, self.dir = rng, version, d
        self.n = 0
        self.p = prefix
        self.files = {}
        self.graph = []
        self.prims = T.PRIMS if rng.random() < 0.4 else rng.sample(T.PRIMS, 3)
        self.packed = rng.random() < 0.25
        self.known_names, self.scope = [], set()
        self.inputs = {self.name("wi", self.scope): self.rtype() for _ in range(rng.choice([1, 2, 3]))}
        self.sources = {k: dict(type=t, step=None) for k, t in self.inputs.items()}
        self.steps, self.sinks = [], []
        self.ns = False
        for _ in range(n_steps if n_steps is not None else rng.choice([1, 2, 3])):
            self.step()
        for _ in range(rng.choice([1, 2, 3])):
            self.sinks.append(self.sink("out", None))

    def name(self, p, scope=None, like=()):
        """A new name; within the same scope it is unique, but it may repeat, extend or shorten a name
        used elsewhere."""
        rng = self.rng
        if scope is not None and self.known_names and rng.random() < (0.6 if like else 0.4):
            b = rng.choice(list(like)) if like and rng.random() < 0.7 else rng.choice(sorted(scope) if scope and rng.random() < 0.5 else self.known_names)
            n = rng.choice([b, b, b + "2", b + "x", "x" + b, b[:-1] or b, b[1:] or b])
            if n not in scope and n[0] not in ".-_0123456789":
                scope.add(n)
                self.known_names.append(n)
                return n
        while True:
            self.n += 1
            n = "%s%s%d%s" % (self.p, p, self.n, rng.choice(["", "", "x", "_y", "-z", ".w"]))
            if scope is None:
                return n
            if n not in scope:
                scope.add(n)
                self.known_names.append(n)
                return n

    def fresh(self):
        return self.name("T")

    def rtype(self):
        return T.rand(self.rng, self.rng.choice([0, 1, 2]), False, self.prims)

    def js(self, t):
        return T.json_of(t, self.rng, None if self.version == "v1.0" else self.fresh)

    def eff(self, ref):
        """Type of one source, scatter and loop included."""
        s = self.sources[ref]
        t, st = s["type"], s["step"]
        if st is not None:
            if st.scatter:
                for _ in range(len(st.scatter) if st.method == "nested_crossproduct" else 1):
                    t = T.arr(t)
            if st.loop:
                t = T.arr(t)
        return t

    def per_source(self, sink):
        """[(ref, type it brings to the sink, still to be picked from)]"""
        out = []
        link = sink["link"] or ("merge_nested" if len(sink["src"]) > 1 else None)
        pick = sink["pick"] if self.version == "v1.2" else None
        for ref in sink["src"]:
            t = self.eff(ref)
            st = self.sources[ref]["step"]
            if pick in ("first_non_null", "the_only_non_null"):
                if link == "merge_nested":
                    e = t
                else:
                    e = picked(T.arr(T.items(T.flatten1(t))) if link == "merge_flattened" else t, pick)
            else:
                e = T.arr(t) if link == "merge_nested" else T.flatten1(t) if link == "merge_flattened" else t
            out.append((ref, e))
        return out

    def sink(self, kind, step):
        rng = self.rng
        s = dict(kind=kind, name=self.name("si", step.scope) if kind == "in" else self.name("wo", self.scope), step=step, src=[], link=None, pick=None,
                 valueFrom=None, default=None, scattered=False, tooldefault=None, unknown=False, aslist=False)
        k = rng.random()
        if k < 0.12:
            pass
        else:
            refs = list(self.sources)
            s["src"] = [rng.choice(refs) for _ in range(1 if rng.random() < 0.6 else rng.choice([2, 2, 3]))]
            s["aslist"] = len(s["src"]) > 1 or rng.random() < 0.2
            if rng.random() < (0.6 if len(s["src"]) > 1 else 0.15):
                s["link"] = rng.choice(["merge_nested", "merge_flattened"])
            single_when = len(s["src"]) == 1 and self.sources[s["src"][0]]["step"] is not None \
                and self.sources[s["src"][0]]["step"].when
            if self.version == "v1.2" and rng.random() < (0.4 if len(s["src"]) > 1 else 0.1) and not single_when:
                s["pick"] = rng.choice(["first_non_null", "the_only_non_null", "all_non_null"])
        if kind == "in":
            if rng.random() < 0.12:
                s["valueFrom"] = "$(self)"
            if rng.random() < 0.12:
                s["default"] = rng.choice(FALSY + ["dflt"])
        bring = [t for _, t in self.per_source(s)]
        s["type"] = self.fitting(bring) if bring else self.rtype()
        if kind == "in":
            if bring and rng.random() < 0.4 and all(any(a[0] == "a" for a in t) for t in bring):
                it = frozenset().union(*[T.items([a for a in t if a[0] == "a"]) for t in bring])
                if self.ok(T.arr(it), bring):
                    s["scattered"], s["type"] = True, T.arr(it)
            if not s["src"]:
                # no source: it needs to be optional, defaulted or computed
                if s["valueFrom"] is None and s["default"] is None:
                    q = rng.random()
                    if q < 0.4:
                        s["type"] = s["type"] | {T.NULL}
                    elif q < 0.8:
                        s["tooldefault"] = rng.choice(FALSY + ["tool default"])
                    else:
                        s["unknown"] = True
            elif rng.random() < 0.05:
                s["unknown"], s["scattered"] = True, False
        return s

    def ok(self, t, bring):
        return all(T.verdict(b, t) != "exception" for b in bring)

    def fitting(self, bring):
        rng = self.rng
        u = frozenset().union(*bring)
        for _ in range(4):
            t = u
            for _ in range(rng.choice([0, 1, 1, 2])):
                t = T.vary(rng, t, self.prims)
            if self.ok(t, bring):
                return t
        return u

    def clashing(self, sink):
        """A sink type that some source of the sink can never satisfy, or None."""
        rng = self.rng
        bring = self.per_source(sink)
        for _ in range(40):
            t = sink["type"]
            for _ in range(rng.choice([1, 1, 2])):
                t = T.vary(rng, t, self.prims) if rng.random() < 0.8 else T.rand(rng, 1, False, self.prims)
            if sink["scattered"] and not (len(t) == 1 and next(iter(t))[0] == "a"):
                continue
            bad = [r for r, b in bring if T.verdict(b, t) == "exception"]
            if bad and bad == [r for r, b in bring if T.verdict(b, t, False) == "exception"]:
                return t, bad
        return None

    def step(self):
        rng = self.rng
        st = Step()
        st.name = self.name("st", self.scope, [x.name for x in self.steps])
        st.scope = set()
        st.when = st.loop = False
        st.scatter, st.method = [], None
        st.ins = [self.sink("in", st) for _ in range(rng.choice([1, 2, 3]))]
        sc = [s for s in st.ins if s["scattered"]]
        if sc:
            st.scatter = [s["name"] for s in sc]
            st.scalar = len(sc) == 1 and rng.random() < 0.5
            if len(sc) > 1 or rng.random() < 0.3:
                st.method = rng.choice(["dotproduct", "nested_crossproduct", "flat_crossproduct"])
        if self.version == "v1.2":
            if rng.random() < 0.2:
                st.when = True
            elif not st.scatter and rng.random() < 0.3:
                st.loop = True
                self.ns = True
        st.outs = {self.name("o", st.scope, [o for x in self.steps for o in x.outs]): self.rtype() for _ in range(rng.choice([1, 1, 2]))}
        st.streams = {}
        kinds = ["CommandLineTool", "CommandLineTool", "ExpressionTool", "Workflow"] + (["Operation"] if self.version == "v1.2" else [])
        st.cls = rng.choice(kinds)
        if st.cls == "CommandLineTool":
            for s in ("stdout", "stderr"):
                if rng.random() < 0.25:
                    n = self.name("o", st.scope)
                    st.outs[n] = T.P("File")
                    st.streams[n] = s
            if self.version != "v1.0" and rng.random() < 0.15:
                for s in st.ins:
                    if s["type"] == (T.arr(T.P("File")) if s["scattered"] else T.P("File")) and not s["unknown"] \
                            and s["tooldefault"] is None:
                        st.streams[s["name"]] = "stdin"
                        break
        st.form = rng.choice(["inline", "inline-id", "file", "subdir", "file-id"])
        if self.packed and st.form in ("file", "subdir", "file-id"):
            st.form = "graph"
        st.extra_in = {self.name("ti", st.scope): self.rtype() | {T.NULL} for _ in range(rng.choice([0, 0, 1]))}
        self.steps.append(st)
        self.sinks.extend(st.ins)
        for n, t in st.outs.items():
            self.sources[st.name + "/" + n] = dict(type=t, step=st)

    # -- documents
    def tool_doc(self, st):
        ins = []
        for s in st.ins:
            if s["unknown"]:
                continue
            t = T.items(s["type"]) if s["scattered"] else s["type"]
            p = {"id": s["name"], "type": "stdin" if s["name"] in st.streams else self.js(t)}
            if s["tooldefault"] is not None:
                p["default"] = s["tooldefault"]
            ins.append(p)
        ins += [{"id": n, "type": self.js(t)} for n, t in st.extra_in.items()]
        outs = [{"id": n, "type": st.streams.get(n) or self.js(t)} for n, t in st.outs.items()]
        self.rng.shuffle(ins)
        self.rng.shuffle(outs)
        d = {"class": st.cls, "inputs": ins, "outputs": outs}
        if st.cls == "CommandLineTool":
            d["baseCommand"] = "true"
            for o in outs:
                if o["id"] not in st.streams:
                    o["outputBinding"] = {"glob": "x"}
        elif st.cls == "ExpressionTool":
            d["requirements"] = [{"class": "InlineJavascriptRequirement"}]
            d["expression"] = "${return {};}"
        elif st.cls == "Workflow":
            d["steps"] = []
        if self.rng.random() < 0.3:
            for k in ("inputs", "outputs"):
                d[k] = {p["id"]: {a: b for a, b in p.items() if a != "id"} for p in d[k]}
        return d

    def source_js(self, s):
        return list(s["src"]) if s["aslist"] else s["src"][0]

    def write(self, stem="wf"):
        """Write all files; returns the path (with #main when packed)."""
        v = self.version
        steps = []
        reqs = [{"class": "SubworkflowFeatureRequirement"}, {"class": "ScatterFeatureRequirement"},
                {"class": "MultipleInputFeatureRequirement"}, {"class": "StepInputExpressionRequirement"},
                {"class": "InlineJavascriptRequirement"}]
        for st in self.steps:
            tool = self.tool_doc(st)
            if st.form == "inline":
                run = tool
            elif st.form == "inline-id":
                run = {"id": st.name + "-tool", **tool}
            elif st.form == "graph":
                self.graph.append({"id": st.name + "-tool", **tool})
                run = "#" + st.name + "-tool"
            else:
                rel = ("sub/" if st.form == "subdir" else "") + "%s-%s.cwl" % (stem, st.name)
                if st.form == "file-id":
                    tool = {"id": "tool", **tool}
                self.files[rel] = {"cwlVersion": v, **tool}
                run = rel
            ins = []
            for s in st.ins:
                i = {"id": s["name"]}
                if s["src"]:
                    i["source"] = self.source_js(s)
                if s["link"]:
                    i["linkMerge"] = s["link"]
                for k, a in (("pick", "pickValue"), ("valueFrom", "valueFrom"), ("default", "default")):
                    if s[k] is not None:
                        i[a] = s[k]
                ins.append(i)
            d = {"id": st.name, "run": run, "in": ins, "out": list(st.outs) + getattr(st, "extra_outs", [])}
            if st.scatter:
                d["scatter"] = st.scatter[0] if st.scalar else list(st.scatter)
                if st.method:
                    d["scatterMethod"] = st.method
            if st.when:
                d["when"] = "$(true)"
            if st.loop:
                d["requirements"] = [{"class": "cwltool:Loop", "loopWhen": "$(false)", "loop": [], "outputMethod": "all"}]
            steps.append(d)
        outs = []
        for s in self.sinks:
            if s["kind"] == "out":
                o = {"id": s["name"], "type": self.js(s["type"])}
                if s["src"]:
                    o["outputSource"] = self.source_js(s)
                if s["link"]:
                    o["linkMerge"] = s["link"]
                if s["pick"]:
                    o["pickValue"] = s["pick"]
                outs.append(o)
        doc = {"class": "Workflow", "requirements": reqs, "inputs": [{"id": k, "type": self.js(t)} for k, t in self.inputs.items()],
               "outputs": outs, "steps": steps}
        self.rng.shuffle(doc["steps"])
        path = os.path.join(self.dir, stem + ".cwl")
        meta = {"cwlVersion": v}
        if self.ns:
            meta["$namespaces"] = NS
        if self.packed:
            g = self.graph + [{"id": "main", **doc}]
            self.rng.shuffle(g)
            doc = {**meta, "$graph": g}
        else:
            doc = {**meta, **({"id": "thewf"} if self.rng.random() < 0.4 else {}), **doc}
        self.files[stem + ".cwl"] = doc
        for rel, x in self.files.items():
            p = os.path.join(self.dir, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                json.dump(x, f, indent=1)
        return path


def last(i):
    return str(i).split("#")[-1].split("/")[-1]
