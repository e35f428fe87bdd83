"""Documents with a given kind of requirement at many places, in several layouts, and what a reader must find (C14, C15)."""
import json, os
import docs, gen, salad_ref, tree


def processes(doc):
    for p in doc.get("$graph", [doc]):
        yield p, "process"
        for s in p.get("steps") or []:
            yield s, "step"
            if isinstance(s.get("run"), dict):
                yield from processes(s["run"])


def inject(rng, doc, cls, new, seen, p=None):
    """Put requirements of the class at random places; new(rng) makes one."""
    p = rng.choice([0, 0.3, 0.6, 0.9]) if p is None else p
    for x, kind in processes(doc):
        for key in ("requirements", "hints"):
            lst = [r for r in x.get(key) or [] if r.get("class") != cls]
            if rng.random() < p:
                lst.insert(rng.randint(0, len(lst)), {"class": cls, **new(rng)})
                seen("%s %s" % (kind, key))
            if lst or key in x:
                x[key] = lst


def workflow(g, rng):
    while True:
        doc = gen.document(g, rng.choice(["Workflow"] * 5 + [None]))
        if len(json.dumps(doc)) < 9000:
            return doc


def write(d, name, content, rng):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8", newline="") as h:
        h.write(content if isinstance(content, str) else gen.write_yaml(content, rng))
    return p


def make(g, rng, version, d, cls, new, seen, p=None, namespaces=None):
    """A document in directory d; returns (path, requirements expected in order, layout)."""
    layout = rng.choice(["single", "spread", "spread", "packed", "library"])
    docs.setup(d)
    if layout == "single":
        doc = workflow(g, rng)
        inject(rng, doc, cls, new, seen, p)
        if namespaces:
            doc["$namespaces"] = dict(namespaces)
        path = write(d, "main.cwl", gen.Sugar(rng, version, rng.choice([0, 0.5, 1])).proc(doc), rng)
        # (the reference reader sorts what is written as a map)
        model = write(d, "model.cwl", doc, None)
        want = list(found(salad_ref.resolve(model, version), cls, {}))
        os.remove(model)
    elif layout == "spread":
        doc = workflow(g, rng)
        inject(rng, doc, cls, new, seen, p)
        if namespaces:
            doc["$namespaces"] = dict(namespaces)
        t = tree.Tree(rng, version, p_file=rng.choice([0.3, 0.7, 1.0]), p_import=rng.choice([0, 0.3]), p=rng.choice([0, 0.5]), version_in_parts=1)
        top = rng.choice(["main.cwl", "wf/main.cwl", "a b/main.cwl"])
        t.files[top] = t.process(doc, top, True)
        for f, c in t.files.items():
            write(d, f, c, rng)
        path = os.path.join(d, top)
        model = write(d, os.path.join(os.path.dirname(top), "model.cwl"), doc, None)
        want = list(found(salad_ref.resolve(model, version), cls, {}))
        os.remove(model)
    else:
        doc, names = docs.packed(g, rng, rng.random() < 0.3)
        inject(rng, doc, cls, new, seen, p)
        if namespaces:
            doc["$namespaces"] = dict(namespaces)
        path = write(d, "sub/lib.cwl" if layout == "library" else "packed.cwl", doc, rng)
        byid = {p["id"]: p for p in salad_ref.resolve(path, version)}
        base = salad_ref.file_uri(path)
        if layout == "packed":
            want = list(found(byid[base + "#main"], cls, byid))
        else:       # a workflow that runs processes of the packed document
            runs = [rng.choice(names) for _ in range(rng.choice([1, 2, 3]))]
            wf = {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [], "steps": [
                {"id": "s%d" % i, "in": [], "out": [], "run": "sub/lib.cwl#" + n} for i, n in enumerate(runs)]}
            inject(rng, wf, cls, new, seen, p)
            if namespaces:
                wf["$namespaces"] = dict(namespaces)
            path = write(d, "main.cwl", wf, rng)
            want = own(wf, cls)
            for s, n in zip(wf["steps"], runs):
                want += own(s, cls) + list(found(byid[base + "#" + n], cls, byid))
    return path, want, layout


def own(x, cls):
    return [r for key in ("requirements", "hints") for r in x.get(key) or [] if r.get("class") == cls]


def found(p, cls, byid):
    yield from own(p, cls)
    for s in p.get("steps") or []:
        yield from own(s, cls)
        yield from found(byid[s["run"]] if isinstance(s["run"], str) else s["run"], cls, byid)
