"""One-violation mutations of CWL documents (the reference reader says which ones are violations)."""
import copy

OPAQUE = {"default", "$namespaces", "$schemas", "ex:n2"}
VALUES = [None, True, 0, -1, 1.5, "bogus", "x y", [], ["bogus"], [1], {}, {"bogus": 1}, {"class": "Bogus"}, [[]],
          [None], {"class": "File", "location": "file.txt"}, "$(inputs.a)", {"type": "array"}, [{}]]
FOREIGN = ["when", "pickValue", "networkAccess", "loadListing", "intent", "streamable", "required", "inplaceUpdate",
           "scatter", "valueFrom", "steps", "baseCommand", "expression", "outputSource", "source", "glob", "symbols",
           "fields", "items", "loadContents", "enableReuse", "timelimit", "dockerPull", "bogus", "doc", "label", "run",
           "in", "out", "itemSeparator", "coresMin", "class", "id", "name", "default", "linkMerge", "format"]
CLASSES = ["CommandLineTool", "Workflow", "ExpressionTool", "Operation", "Bogus", "commandlinetool", "File",
           "InlineJavascriptRequirement", "NetworkAccess", "LoadListingRequirement", "WorkReuse", "DockerRequirement",
           "SubworkflowFeatureRequirement", "ToolTimeLimit", ""]


def nodes(x, path=()):
    """(container, key, path) of every place below x, free-form values excluded."""
    if isinstance(x, dict):
        for k in list(x):
            if k in OPAQUE or ":" in k:
                continue
            yield x, k, path + (k,)
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield x, i, path + (i,)
            yield from nodes(x[i], path + (i,))


def dicts(x, path=()):
    if isinstance(x, dict):
        yield x, path
        for k, v in x.items():
            if k not in OPAQUE and ":" not in k:
                yield from dicts(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from dicts(v, path + (i,))


def misspell(rng, s):
    i = rng.randrange(len(s))
    k = rng.random()
    if k < 0.3: return s[:i] + s[i] + s[i:]
    if k < 0.6 and len(s) > 1: return s[:i] + s[i + 1:]
    if k < 0.8: return s[:i] + (s[i].upper() if s[i].islower() else s[i].lower()) + s[i + 1:]
    return s + "_"


def mutate(rng, doc):
    """-> (mutated copy, kind, word the error should mention or None, path)"""
    doc = copy.deepcopy(doc)
    kind = rng.choice(["remove", "misspell", "foreign", "value", "value", "enum", "class", "unclass", "wrap", "listelem",
                       "extend", "emptykey"])
    ds = list(dicts(doc))
    if kind == "remove":
        d, p = rng.choice([x for x in ds if x[0]])
        ks = [k for k in d if ":" not in k and k not in ("cwlVersion", "$namespaces")]
        if not ks: return None
        k = rng.choice(ks)
        del d[k]
        return doc, kind, k, p + (k,)
    if kind == "misspell":
        d, p = rng.choice([x for x in ds if x[0]])
        ks = [k for k in d if ":" not in k and not k.startswith("$") and k != "cwlVersion"]
        if not ks: return None
        k = rng.choice(ks)
        n = misspell(rng, k)
        if n in d or not n: return None
        items = [(n if a == k else a, v) for a, v in d.items()]
        d.clear(); d.update(items)
        return doc, kind, n, p + (k,)
    if kind == "foreign":
        d, p = rng.choice(ds)
        k = rng.choice(FOREIGN)
        if k in d: return None
        d[k] = copy.deepcopy(rng.choice(VALUES))
        return doc, kind, k, p + (k,)
    if kind == "extend":
        d, p = rng.choice(ds)
        k = rng.choice(["http://example.org/ext#note", "mailto:x", "http://example.org/" + rng.choice(FOREIGN)])
        if k in d: return None
        d[k] = copy.deepcopy(rng.choice(VALUES))
        return doc, kind, None, p + (k,)
    if kind == "emptykey":
        d, p = rng.choice(ds)
        d[""] = copy.deepcopy(rng.choice(VALUES))
        return doc, kind, None, p + ("",)
    if kind in ("class", "unclass"):
        cs = [x for x in ds if isinstance(x[0].get("class"), str)]
        if not cs: return None
        d, p = rng.choice(cs)
        if kind == "unclass":
            del d["class"]
            return doc, kind, None, p + ("class",)
        old = d["class"]
        d["class"] = rng.choice(CLASSES + [misspell(rng, old)])
        return doc, kind, None, p + ("class",)
    ns = [n for n in nodes(doc) if n[1] != "cwlVersion" and not str(n[1]).startswith("$")]
    if not ns: return None
    c, k, p = rng.choice(ns)
    if kind == "enum":
        es = [n for n in ns if isinstance(n[0][n[1]], str) and (n[1] in ("type", "items", "linkMerge", "pickValue",
              "scatterMethod", "loadListing") or (len(n[2]) > 1 and n[2][-2] in ("type", "items")))]
        if not es: return None
        c, k, p = rng.choice(es)
        c[k] = rng.choice(["bogus", "Int", "merge_bogus", "Strings", "strin", "all", "deep", "dotproductx", "file"])
        return doc, kind, None, p
    if kind == "wrap":
        c[k] = rng.choice([[c[k]], {"a": c[k]}, [[c[k]]], [c[k], c[k]]])
        return doc, kind, None, p
    if kind == "listelem":
        ls = [n for n in ns if isinstance(n[0][n[1]], list)]
        if not ls: return None
        c, k, p = rng.choice(ls)
        c[k].insert(rng.randrange(len(c[k]) + 1), copy.deepcopy(rng.choice(VALUES)))
        return doc, kind, None, p
    v = copy.deepcopy(rng.choice(VALUES))
    if v == c[k] and type(v) is type(c[k]): return None
    c[k] = v
    return doc, kind, None, p
