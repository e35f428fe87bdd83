"""C09 type compatibility verdicts against an independent model of CWL types."""
import logging, pathlib
import common, objdump, tymodel as T
from common import scale
from cwl_utils.parser import load_document_by_yaml
from cwl_utils.parser import utils as U
from cwl_utils.parser import cwl_v1_1_utils
from schema_salad.exceptions import ValidationException

C = common.Check("C09", "one (source type, sink type, linkMerge, valueFrom) judged by check_types on types the real parser loaded; "
                 "the verdict expected comes from a model of the types that shares no code with the library; distinct by the four; "
                 "non-trivial = the two types are related (one made from the other) or a modifier is set")
logging.disable(logging.CRITICAL)
VERSIONS = ("v1.0", "v1.1", "v1.2")
MERGES = (None, "merge_nested", "merge_flattened")


def load_types(version, rng, srcs, sinks):
    n = [0]

    def fresh():
        n[0] += 1
        return "T%d" % n[0]
    doc = {"cwlVersion": version, "class": "CommandLineTool", "id": "t", "baseCommand": "true",
           "inputs": [{"id": "i%d" % i, "type": T.json_of(t, rng, fresh)} for i, t in enumerate(sinks)],
           "outputs": [{"id": "o%d" % i, "type": T.json_of(t, rng, fresh)} for i, t in enumerate(srcs)]}
    if rng.random() < 0.4:      # the types of workflows have classes of their own
        del doc["baseCommand"]
        doc.update({"class": "Workflow", "steps": []})
        if version == "v1.0":
            for p, t in zip(doc["inputs"] + doc["outputs"], sinks + srcs):
                p["type"] = T.json_of(t, rng)
    with common.quiet():
        o = load_document_by_yaml(doc, BASE.as_uri())
    return [p.type_ for p in o.outputs], [p.type_ for p in o.inputs]


def chunk(i, r):
    rng = C.rng(i)
    prims = T.PRIMS if rng.random() < 0.5 else rng.sample(T.PRIMS, 3)
    pairs = []
    for _ in range(scale(40, 60)):
        a = T.rand(rng, prims=prims)
        b = a if rng.random() < 0.2 else T.rand(rng, prims=prims) if rng.random() < 0.1 else T.vary(rng, a, prims)
        if rng.random() < 0.3:
            b = T.vary(rng, b, prims)
        if rng.random() < 0.2:
            b = T.arr(b)
        if rng.random() < 0.2:
            a = T.arr(a)
        if rng.random() < 0.5:
            a, b = b, a
        pairs.append((a, b))
    loaded = {}
    for v in VERSIONS:
        loaded[v] = load_types(v, rng, [a for a, _ in pairs], [b for _, b in pairs])
        for got, want in zip(loaded[v][0] + loaded[v][1], [a for a, _ in pairs] + [b for _, b in pairs]):
            if T.of(got) != want:
                r.inconclusive("the parser changed a declared type: %s -> %s" % (T.text(want), T.text(T.of(got))))
                return
    for k, (a, b) in enumerate(pairs):
        for merge in MERGES:
            src = a if merge is None else T.arr(a) if merge == "merge_nested" else T.flatten1(a)
            want = T.verdict(src, b)
            if want != T.verdict(src, b, False):
                r.see("null meets Any: not judged")
                continue
            r.case((T.text(a), T.text(b), merge), True, {"source": T.text(a), "sink": T.text(b), "linkMerge": merge, "verdict": want})
            r.see("expected " + want)
            for v in VERSIONS:
                s, t = loaded[v][0][k], loaded[v][1][k]
                before = objdump.dump([s, t])
                got = U.check_types(s, t, merge)
                r.see("verdicts compared")
                if got != want:
                    r.violation("verdict-%s-for-%s" % (got, want), version=v, source=T.text(a), sink=T.text(b), linkMerge=merge,
                                expected=want, got=got)
                if objdump.dump([s, t]) != before:
                    r.violation("types-modified", version=v, source=T.text(a), sink=T.text(b), linkMerge=merge)
                if merge is None:
                    strict, loose = U.can_assign_src_to_sink(s, t, True), U.can_assign_src_to_sink(s, t)
                    copies = [(strict, loose)]
                    f = getattr(cwl_v1_1_utils, "can_assign_src_to_sink", None)
                    if f:
                        copies.append((f(s, t, True), f(s, t)))
                    for st, lo in copies:
                        if (st, st or lo) != (want == "pass", want != "exception"):
                            r.violation("can-assign", version=v, source=T.text(a), sink=T.text(b), strict=st, loose=lo, expected=want)
                # union order, on the loaded objects
                if merge is None and rng.random() < 0.3:
                    s2 = list(reversed(s)) if isinstance(s, list) else [s]
                    t2 = list(reversed(t)) if isinstance(t, list) else [t]
                    if U.check_types(s2, t2, merge) != want:
                        r.violation("union-order", version=v, source=T.text(a), sink=T.text(b), expected=want,
                                    got=U.check_types(s2, t2, merge))
                    r.see("union order varied")
                if rng.random() < 0.2:
                    if U.check_types(s, t, merge, "$(self)") != "pass":
                        r.violation("valuefrom-not-pass", version=v, source=T.text(a), sink=T.text(b), linkMerge=merge)
                    r.see("valueFrom")
                if rng.random() < 0.05:
                    bad = rng.choice(["merge", "", "MERGE_NESTED", "merge_nested "])
                    try:
                        got = U.check_types(s, t, bad)
                        r.violation("bad-linkmerge-accepted", linkMerge=bad, got=got)
                    except ValidationException:
                        pass
                    r.see("bad linkMerge")


BASE = pathlib.Path(C.scratch) / "types.cwl"      # the loader checks that the file exists


def body(c):
    BASE.touch()
    c.need("expected pass", 300)
    c.need("expected warning", 300)
    c.need("expected exception", 300)
    c.need("union order varied", 300)
    c.need("bad linkMerge", 20)
    c.add(common.pool_run(chunk, range(scale(160, 3000))))


common.main(C, body)
