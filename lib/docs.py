"""Helpers shared by the document checks (C01-C05, C21)."""
from __future__ import annotations
import json, os, random, re, shutil, tempfile
import gen, objdump, salad_ref, common
from cwl_utils.parser import load_document_by_uri, save

NS = {"ex": gen.EXT, "cwltool": "http://commonwl.org/cwltool#"}
ONT = """@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .
<http://example.com/ext#fmt> rdfs:subClassOf <http://example.com/ext#format_1> .
"""


def setup(d):
    os.makedirs(os.path.join(d, "sub", "deep"), exist_ok=True)
    for f in ("file.txt", "sub/file.bam"):
        open(os.path.join(d, f), "w").close()
    with open(os.path.join(d, "ont.ttl"), "w") as f:
        f.write(ONT)


def strip_meta(x):
    return {k: v for k, v in x.items() if not k.startswith("$")} if isinstance(x, dict) else x


def canon(x):
    return objdump.canon(drop_import_ids(strip_meta(x)), "", NS)


IDENTIFIED = ("CommandLineTool", "ExpressionTool", "Workflow", "Operation")


def loose_files(x):
    if isinstance(x, dict):
        return {k: re.split("[/#:]", v)[-1] if k in ("path", "location", "format") and isinstance(v, str)
                else loose_files(v) for k, v in x.items()}
    return [loose_files(v) for v in x] if isinstance(x, list) else x


def drop_import_ids(x):
    """The reference reader gives imported fragments the id of the imported file; only processes,
    parameters and steps have ids in CWL."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == "id" and isinstance(v, str) and isinstance(x.get("class"), str) and x["class"] not in IDENTIFIED:
                continue
            if k == "hints" and "run" in x and isinstance(v, list):
                v = loose_files(v)      # the hints of a step have no type in CWL (Any)
            out[k] = drop_import_ids(v)
            if k == "secondaryFiles" and isinstance(v, list):
                # the reference reader drops repeated entries that resolve to the same file
                out[k] = [e for i, e in enumerate(out[k]) if not (isinstance(e, dict) and "class" in e and e in out[k][:i])]
        return out
    if isinstance(x, list):
        return [drop_import_ids(v) for v in x]
    return x


KEYS = {"inputs": "id", "outputs": "id", "steps": "id", "in": "id", "requirements": "class", "hints": "class",
        "fields": "name", "envDef": "envName", "packages": "package"}


def unordered(x):
    """The reference reader sorts what was written as a map; compare such lists as sets."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            v = unordered(v)
            if k in KEYS and isinstance(v, list) and all(isinstance(e, dict) for e in v):
                v = sorted(v, key=lambda e: (str(e.get(KEYS[k])), common.jdump(e)))
            out[k] = v
        return out
    if isinstance(x, list):
        return [unordered(v) for v in x]
    return x


def packed(g, rng, hostile=False):
    """A $graph document of several processes, the first called main."""
    n = rng.choice([2, 3, 4])
    names = ["main"] + [g.name("p") for _ in range(n - 1)]
    if hostile:
        # names that contain, extend or shorten the others
        more = ["sub/main", "main2", "xmain", "mai", "main/x", "main.cwl", "a/main/b", "Main"]
        more += [x + y for x in names for y in ("2", ".cwl")] + ["q/" + x for x in names]
        names = ["main"] + [y if rng.random() < 0.5 else x for x, y in zip(names[1:], rng.sample(more, n - 1))]
        if len(set(names)) < n:
            names = ["main"] + ["p%d" % i for i in range(n - 1)]
    procs = []
    ns = False
    for i, nm in enumerate(names):
        p = gen.document(g, "Workflow" if i == 0 else None, runrefs=["#" + x for x in names[i + 1:]])
        p.pop("cwlVersion")
        ns = bool(p.pop("$namespaces", None)) or ns
        if "$schemas" in p: p.pop("$schemas")
        p = {"id": "#" + nm if rng.random() < 0.5 else nm, **p}
        procs.append(p)
    doc = {"cwlVersion": g.version, "$graph": procs}
    if ns:
        doc["$namespaces"] = {"ex": gen.EXT}
    return doc, names


def load(path, **kw):
    with common.quiet():
        return load_document_by_uri(path, **kw)
