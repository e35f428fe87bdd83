"""C02 validation verdicts: documents one edit away from valid ones, judged by an independent schema validator."""
import json, os, shutil, tempfile
import common, gen, salad_ref, docs, mutate
from common import scale
from schema_salad.exceptions import ValidationException
from cwl_utils.parser import load_document_by_yaml, load_document_by_string

C = common.Check("C02", "one random edit (field removed, misspelt, added from elsewhere in CWL, value replaced, class or "
                 "symbol replaced, nesting changed) of a random valid document; the verdict of the loader under test is "
                 "compared with schema-salad's validator on the CWL metaschema; non-trivial = the edit changed the "
                 "document and the validator gave a verdict; distinct by document text")


def nested_list(x, opaque=False):
    """A list directly inside a list at a place with a CWL type (array loader flattens these: known finding)."""
    if isinstance(x, dict):
        return any(nested_list(v) for k, v in x.items() if k not in mutate.OPAQUE and ":" not in k)
    if isinstance(x, list):
        return any(isinstance(v, list) or nested_list(v) for v in x)
    return False


def bad_identifier(x):
    if isinstance(x, dict):
        return any((k in ("id", "name") and (isinstance(v, (list, dict)) or v in ("", None))) or bad_identifier(v)
                   for k, v in x.items() if k not in mutate.OPAQUE and ":" not in k)
    return isinstance(x, list) and any(bad_identifier(v) for v in x)


EXT = {"Secrets", "ProcessGenerator", "MPIRequirement", "CUDARequirement", "ShmSize", "Loop"}
EXT10 = EXT | {"NetworkAccess", "LoadListingRequirement", "WorkReuse", "InplaceUpdateRequirement", "TimeLimit"}


def unprefixed(x, version):
    """Uses a cwltool extension class without its namespace prefix (accepted: known finding)."""
    return any(c.get("class") in (EXT10 if version == "v1.0" else EXT) for c, _ in mutate.dicts(x)
               if isinstance(c.get("class"), str))


def outcome(path):
    try:
        docs.load(path)
        return "accepted", ""
    except ValidationException as e:
        return "rejected", str(e)
    except Exception as e:
        return "other", "%s: %s" % (type(e).__name__, e)


def chunk(item, r):
    version, seed, n = item
    rng = C.rng("chunk", version, seed)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.1, 0.3]))
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    path = os.path.join(d, "m.cwl")
    for _ in range(n):
        doc = gen.document(g)
        for _ in range(rng.choice([4, 6])):
            m = mutate.mutate(rng, doc)
            if m is None:
                continue
            mdoc, kind, word, p = m
            if nested_list(mdoc) or bad_identifier(mdoc):
                r.see("left_to_probes")
                continue
            with open(path, "w", encoding="utf-8") as f:
                json.dump(mdoc, f, ensure_ascii=False)
            try:
                why = salad_ref.schema_verdict(path, version)
            except Exception:
                r.see("no_verdict")
                if kind == "emptykey" and "hints" not in p:
                    # no field of CWL has an empty name; the validator itself fails at these
                    got, msg = outcome(path)
                    r.case([version, mdoc])
                    r.see("empty_names")
                    if got != "rejected":
                        r.violation("empty-field-name", version=version, at=p, doc=mdoc, got=got, message=msg)
                continue
            got, msg = outcome(path)
            if why is None and got != "accepted":
                # only a document that is right in every respect (links too) has to load
                try:
                    if salad_ref.accepts(path, version) is not None:
                        r.see("dangling_reference")
                        continue
                except Exception:
                    continue
                if kind == "remove" and word in ("id", "name") or p[-1] in ("id", "name"):
                    r.see("id_made_optional")      # the metaschema lets ids be absent where CWL wants them
                    continue
                if "missing id" in msg or "missing name" in msg:
                    r.see("id_made_optional")
                    continue
                if "WorkReuse" in common.jdump(mdoc):
                    r.see("work_reuse_default")    # enableReuse is required with a default value; read both ways
                    continue
                if "type" in p or "items" in p or "fields" in p:
                    r.see("odd_type_term")         # '$(..)' is taken for a link by the metaschema validator
                    continue
            if why is not None and got == "accepted" and "hints" in p:
                r.see("hint_is_any")
                continue
            if why is not None and got == "accepted" and kind == "class" and unprefixed(mdoc, version):
                r.see("extension_without_prefix")
                continue
            if why is not None and got == "accepted" and version == "v1.0" and "doc" in p[-2:]:
                r.see("doc_list")      # the loader is generated from a later base schema, where doc may be a list
                continue
            if why is not None and got == "accepted" and "does not contain an expression" in " ".join(why.split()):
                r.see("expression_text")       # the loader does not look inside expressions
                continue
            r.case([version, mdoc], sample={"version": version, "edit": [kind, list(p)], "verdict": got})
            r.see("invalid" if why else "valid")
            r.see("edit_" + kind)
            if why is not None and got == "accepted":
                r.violation("invalid-accepted", version=version, edit=kind, at=p, doc=mdoc, why=why[-800:])
            elif why is not None and got == "other":
                r.violation("other-exception", version=version, edit=kind, at=p, doc=mdoc, error=msg)
            elif why is None and got != "accepted":
                r.violation("valid-rejected", version=version, edit=kind, at=p, doc=mdoc, error=msg[-1500:])
            elif got == "rejected":
                names = [x for x in p if isinstance(x, str)] + ([word] if word else [])
                if not any(x in msg for x in names) and not (len(names) == 1 and names[0] == "class"):
                    r.violation("message-names-nothing", version=version, edit=kind, at=p, doc=mdoc, error=msg)
                if word and kind in ("misspell", "foreign", "remove") and word in msg:
                    r.see("message_names_field")
    shutil.rmtree(d)


TOOL = {"class": "CommandLineTool", "inputs": [], "outputs": [], "baseCommand": "x"}


def probes(r):
    """Fixed cases: the library must reject each of these with its validation error."""
    d = tempfile.mkdtemp(dir=C.scratch)
    path = os.path.join(d, "p.cwl")
    for version in salad_ref.VERSIONS:
        base = dict(TOOL, cwlVersion=version)
        table = [
            ("identifier-not-a-string", dict(base, inputs=[{"id": ["a"], "type": "int"}]), "TypeError: unhashable"),
            ("nested-list-accepted", dict(base, outputs=[[{"id": "o", "type": "Any"}]]), "accepted"),
            ("int-out-of-range", dict(base, successCodes=[2 ** 40]), "accepted"),
            ("string-for-expression", dict(base, requirements=[{"class": "ResourceRequirement", "coresMin": "bogus"}]),
             "accepted"),
            ("not-a-process", dict(base, **{"class": "Bogus"}), None),
            ("no-class", {k: v for k, v in base.items() if k != "class"}, None),
            ("missing-inputs", {k: v for k, v in base.items() if k != "inputs"}, None),
            ("missing-outputs", {k: v for k, v in base.items() if k != "outputs"}, None),
            ("unknown-field", dict(base, basecommand="y"), None),
            ("bad-requirement", dict(base, requirements=[{"class": "Bogus"}]), None),
            ("requirement-field", dict(base, requirements=[{"class": "DockerRequirement", "bogus": "a"}]), None),
            ("missing-type-items", dict(base, inputs=[{"id": "a", "type": {"type": "array"}}]), None),
            ("enum-without-symbols", dict(base, inputs=[{"id": "a", "type": {"type": "enum"}}]), None),
            ("inputs-scalar", dict(base, inputs=3), None), ("inputs-list-of-scalars", dict(base, inputs=[3]), None),
            ("success-codes", dict(base, successCodes=["a"]), None),
            ("bool-for-string", dict(base, label=True), None), ("string-for-bool", dict(base, inputs=[
                {"id": "a", "type": "int", "streamable": "yes"}]), None),
            ("bool-for-int", dict(base, successCodes=[True]), None),
        ]
        if version == "v1.0":
            table += [("extension-class-without-prefix", dict(base, requirements=[{"class": "NetworkAccess", "networkAccess": True}]), "accepted")]
        if version != "v1.2":
            table += [("when", {"cwlVersion": version, "class": "Workflow", "inputs": [], "outputs": [], "steps": [
                {"id": "s", "in": [], "out": [], "run": TOOL, "when": "$(true)"}]}, None),
                ("operation", dict({k: v for k, v in base.items() if k != "baseCommand"}, **{"class": "Operation"}), None)]
        for name, doc, defect in table:
            with open(path, "w") as f:
                json.dump(doc, f)
            got, msg = outcome(path)
            r.case([version, doc])
            r.see("probes")
            if got == "rejected":
                continue
            if name == "bool-for-int":
                continue        # Python's bool is an int for the reference validator as well
            state = "accepted" if got == "accepted" else msg
            r.violation(name if defect and state.startswith(defect) else name + "-unexpected", version=version, doc=doc,
                        got=got, message=msg)
    shutil.rmtree(d)


EXT_CLASSES = {
    "Secrets": ({"secrets": ["a"]}, ["secrets"]), "MPIRequirement": ({"processes": 4}, ["processes"]),
    "CUDARequirement": ({"cudaVersionMin": "11.0", "cudaComputeCapability": "3.0"},
                        ["cudaVersionMin", "cudaComputeCapability"]),
    "ShmSize": ({"shmSize": "64m"}, ["shmSize"]), "ProcessGenerator": ({"run": TOOL}, ["run"]),
}
# of the first version of the extension, for v1.0
EXT_CLASSES10 = {
    "TimeLimit": ({"timelimit": 5}, ["timelimit"]), "NetworkAccess": ({"networkAccess": True}, ["networkAccess"]),
    "WorkReuse": ({"enableReuse": False}, []), "InplaceUpdateRequirement": ({"inplaceUpdate": True}, ["inplaceUpdate"]),
    "LoadListingRequirement": ({"loadListing": "no_listing"}, []),
}


def extension_classes(item, r):
    """Classes that the CWL metaschema does not know: the fields of each, and none but those, and others' with a namespace."""
    version = item
    d = tempfile.mkdtemp(dir=C.scratch)
    path = os.path.join(d, "x.cwl")
    for cls, (fields, required) in {**EXT_CLASSES, **(EXT_CLASSES10 if version == "v1.0" else {})}.items():
        good = dict({"class": "cwltool:" + cls}, **fields)
        if cls == "ProcessGenerator":
            good = dict(good, id="gen", inputs=[], outputs=[])
        cases = [("accepted", good), ("accepted", dict(good, **{"ex:note": {"a": 1}})),
                 ("accepted", dict(good, **{"http://example.org/bogus": 1})),
                 ("rejected", dict(good, bogus=1)), ("rejected", dict(good, **{"": 1})),
                 ("rejected", dict(good, dockerPull="a")),
                 *[("rejected", dict(good, **{k: 1})) for k in ("x_bogus", "x-bogus", "ID", next(iter(fields)) + "_", "ex.note", "$bogus")]]
        for f in fields:
            bad = [{"bogus": 1}, [{}]]
            if f != "run":
                cases += [("rejected", dict(good, **{f: b})) for b in bad]
            cases += [("rejected", {**{k: v for k, v in good.items() if k != f}, f + "_": fields[f]})]
        cases += [("rejected", {k: v for k, v in good.items() if k != f}) for f in required]
        for want, req in cases:
            doc = dict(req if cls == "ProcessGenerator" else dict(TOOL, requirements=[req]), cwlVersion=version,
                       **{"$namespaces": {"cwltool": "http://commonwl.org/cwltool#", "ex": "http://example.org/"}})
            with open(path, "w") as f:
                json.dump(doc, f)
            got, msg = outcome(path)
            r.case(doc)
            r.see("extension_classes")
            if got != want:
                r.violation("extension-class-" + want, version=version, doc=doc, got=got, message=msg[-800:])
    shutil.rmtree(d)


def body(C):
    for v in salad_ref.VERSIONS:
        salad_ref.schema(v)
    n = scale(24, 300)
    C.add(common.pool_run(chunk, [(v, i, 8) for i in range(n) for v in salad_ref.VERSIONS]))
    C.add(common.pool_run(extension_classes, list(salad_ref.VERSIONS)))
    r = common.Result()
    probes(r)
    C.add(r)
    C.need("invalid", n * 40)
    C.need("valid", n * 10)
    C.need("message_names_field", n * 8)
    C.need("probes", 40)
    C.need("extension_classes", 150)
    C.need("empty_names", n)


common.main(C, body)
