"""C10 static workflow checking: well-typed workflows by construction, and the same with one injected error."""
import logging, os, re, shutil, tempfile
import common, objdump, tymodel as T, wfmodel
from common import scale
from cwl_utils.parser import load_document_by_uri
from cwl_utils.parser import utils as U
from schema_salad.exceptions import ValidationException

logging.disable(logging.CRITICAL)
C = common.Check("C10", "one random workflow checked by static_checker, either well-typed by construction (every source brings a type its "
                 "sink can take, scatter, linkMerge, pickValue, valueFrom and defaults included) or with one injected error at a "
                 "random sink; distinct by the set of links; non-trivial = it has links with modifiers or an injected error")


def check(w, wf, r):
    before = objdump.dump(wf)
    try:
        with common.quiet():
            U.static_checker(wf)
        msg = None
    except ValidationException as e:
        msg = str(e)
    if objdump.dump(wf) != before:
        r.violation("workflow-modified", diff=objdump.diff(before, objdump.dump(wf)), version=w.version)
    return msg


def describe(w):
    return [dict(sink=s["name"], type=T.text(s["type"]), sources=[(n, T.text(w.eff(n))) for n in s["src"]], link=s["link"], pick=s["pick"],
                 scattered=s["scattered"], valueFrom=s["valueFrom"], default=s["default"], tool_default=s["tooldefault"],
                 unknown=s["unknown"], step=s["step"] and (s["step"].form, s["step"].cls, s["step"].method)) for s in w.sinks]


def build(w, d, r):
    with common.quiet():
        return load_document_by_uri(w.write())


def inject(w, rng):
    """Make one error; returns (kind, names that the message must contain, names of sinks that it may contain) or None."""
    kinds = ["clash"] * 8 + ["required", "required", "missing-source", "missing-source", "missing-out"]
    kind = rng.choice(kinds)
    if kind == "clash":
        cand = [s for s in w.sinks if s["src"] and s["valueFrom"] is None and not s["unknown"]]
        rng.shuffle(cand)
        for s in cand:
            c = w.clashing(s)
            if c:
                s["type"], bad = c
                if s["name"] in (s["step"].streams if s["step"] else {}):
                    del s["step"].streams[s["name"]]
                return kind, [s["name"]] + [b.split("/")[-1] for b in bad], s, bad
    if kind == "required":
        cand = [s for s in w.sinks if s["kind"] == "in" and s["name"] not in s["step"].streams and not s["scattered"]]
        if cand:
            s = rng.choice(cand)
            s.update(src=[], link=None, pick=None, valueFrom=None, default=None, tooldefault=None, unknown=False)
            s["type"] = (s["type"] - {T.NULL}) or T.P("int")
            return kind, [s["name"]], s, []
    if kind == "missing-source":
        cand = [s for s in w.sinks if s["src"]]
        if cand:
            s = rng.choice(cand)
            w.sources["nope99"] = dict(type=T.P("int"), step=None)
            s["src"] = list(s["src"])
            s["src"][rng.randrange(len(s["src"]))] = "nope99"
            return kind, ["nope99"], s, []
    if kind == "missing-out" and w.steps:
        st = rng.choice(w.steps)
        st.extra_outs = ["nope98"]
        return kind, ["nope98"], None, []
    return None


def one(i, r):
    rng = C.rng(i)
    v = ("v1.0", "v1.1", "v1.2")[i % 3]
    d = tempfile.mkdtemp(dir=C.scratch)
    try:
        w = wfmodel.WF(rng, v, d)
        wf = build(w, d, r)
        msg = check(w, wf, r)
        r.see("well-typed workflows")
        for s in w.sinks:
            for k in ("link", "pick", "scattered", "valueFrom", "default", "tooldefault", "unknown"):
                if s[k]:
                    r.see("sinks with " + k)
            r.see("links", len(s["src"]))
        for st in w.steps:
            r.see("steps %s" % st.form)
            if st.loop: r.see("loop steps")
            if st.when: r.see("conditional steps")
        r.case([v] + sorted(map(repr, describe(w))), any(s["link"] or s["pick"] or s["scattered"] for s in w.sinks),
               {"version": v, "links": [(x["sources"], x["type"]) for x in describe(w)][:3]})
        if msg is not None:
            r.violation("well-typed-rejected", version=v, message=msg[:1500], sinks=describe(w))
            return
        for k in range(2):
            w2 = w if k == 0 else wfmodel.WF(rng, v, d, prefix="")
            inj = inject(w2, rng)
            if not inj:
                continue
            w2.files, w2.graph = {}, []
            kind, names, sink, bad = inj
            with common.quiet():
                path = w2.write()
                try:
                    wf2 = load_document_by_uri(path)
                except ValidationException:
                    r.see("injected error found at load: " + kind)
                    continue
            msg = check(w2, wf2, r)
            r.see("injected " + kind)
            info = dict(version=v, kind=kind, sink=sink and sink["name"], names=names, sinks=describe(w2) if kind != "missing-source" else None)
            r.case([kind, v, repr(sorted(map(repr, describe(w2))))])
            if msg is None:
                r.violation("accepted-" + kind, **info)
                continue
            for n in names:
                if not re.search(r"(?<![\w.-])%s(?![\w.-])" % re.escape(n), msg):
                    r.violation("not-named-" + kind, missing=n, message=msg[:1500], **info)
            if kind in ("clash", "required"):
                named = set(re.findall(r"(?:with sink|Required parameter) '([^']*)'", msg))
                if named - {sink["name"]}:
                    r.violation("blames-other-sink", named=sorted(named), message=msg[:1500], **info)
                srcs = set(re.findall(r"Source '([^']*)' of type", msg))
                if kind == "clash" and srcs and srcs != {b.split("/")[-1] for b in bad}:
                    r.violation("blames-other-source", named=sorted(srcs), expected=bad, message=msg[:1500], **info)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def chunk(k, r):
    for i in range(k * 6, k * 6 + 6):
        one(i, r)


def body(c):
    c.need("well-typed workflows", 120)
    c.need("injected clash", 60)
    for n in ("injected required", "injected missing-source", "injected missing-out", "sinks with link", "sinks with pick",
              "sinks with scattered", "conditional steps", "loop steps"):
        c.need(n, 10)
    c.add(common.pool_run(chunk, range(scale(48, 2000))))


common.main(C, body)
