"""C11 inferred source and step types against workflows whose types are known by construction."""
import logging, os, shutil, tempfile
import common, objdump, tymodel as T, wfmodel
from common import scale
from cwl_utils.parser import load_document_by_uri
from cwl_utils.parser import utils as U
from cwl_utils.errors import WorkflowException
from schema_salad.exceptions import ValidationException

logging.disable(logging.CRITICAL)
C = common.Check("C11", "one inference call (type_for_source of one or several sources with linkMerge and pickValue, "
                 "type_for_step_input, type_for_step_output, param_for_source_id) on a random workflow whose types are known "
                 "from its construction; distinct by expected type and modifiers; non-trivial = scatter, merging, picking, several "
                 "sources or a non-primitive type take part")
PICKS = (None, "first_non_null", "the_only_non_null", "all_non_null")
MERGES = (None, "merge_nested", "merge_flattened")


def one(i, r):
    rng = C.rng(i)
    v = ("v1.0", "v1.1", "v1.2")[i % 3]
    d = tempfile.mkdtemp(dir=C.scratch)
    try:
        w = wfmodel.WF(rng, v, d)
        with common.quiet():
            wf = load_document_by_uri(w.write())
        run(w, wf, v, rng, r)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(r, what, key, got, want, **info):
    r.see(what)
    nontriv = len(want) > 1 or next(iter(want))[0] != "p" or any(info.get(k) for k in ("link", "pick"))
    r.case((what, T.text(want), key), nontriv, {"call": what, "key": key, "type": T.text(want)})
    try:
        t = T.of(got)
    except TypeError as e:
        r.violation(what + "-not-a-type", error=str(e), expected=T.text(want), **info)
        return
    if t != want:
        r.violation(what, expected=T.text(want), got=T.text(t), **info)


def run(w, wf, v, rng, r):
    before = objdump.dump(wf)
    ids = {wfmodel.last(p.id): p.id for p in wf.inputs}
    for st in wf.steps:
        for o in st.out:
            oid = o if isinstance(o, str) else o.id
            ids[wfmodel.last(st.id) + "/" + wfmodel.last(oid)] = oid
    if set(ids) != set(w.sources):
        r.inconclusive("sources read differently: %r %r" % (sorted(ids), sorted(w.sources)))
        return
    steps = {wfmodel.last(s.id): s for s in wf.steps}
    models = {s.name: s for s in w.steps}

    def eff(ref):      # loops are an extension that type_for_source does not cover
        t, st = w.sources[ref]["type"], w.sources[ref]["step"]
        if st is not None and st.scatter:
            for _ in range(len(st.scatter) if st.method == "nested_crossproduct" else 1):
                t = T.arr(t)
        return t
    refs = list(w.sources)
    calls = [([ref], rng.random() < 0.5) for ref in refs] + [(s["src"], s["aslist"]) for s in w.sinks if s["src"]] + \
        [([rng.choice(refs) for _ in range(rng.choice([1, 2, 2, 3, 4]))], True) for _ in range(4)]
    for names, aslist in calls:
        link, pick = rng.choice(MERGES), rng.choice(PICKS)
        want = wfmodel.merged([eff(n) for n in names], len(names) > 1, link, pick, v)
        arg = [ids[n] for n in names] if aslist or len(names) > 1 else ids[names[0]]
        if rng.random() < 0.3:      # sources can be named by the part after the '#', too
            arg = [x.split("#")[-1] for x in arg] if isinstance(arg, list) else arg.split("#")[-1]
        keep = list(arg) if isinstance(arg, list) else arg
        info = dict(version=v, sources=[(n, T.text(eff(n))) for n in names], link=link, pick=pick)
        with common.quiet():
            got = U.type_for_source(wf, v, arg, linkMerge=link, pickValue=pick)
        judge(r, "type_for_source" + ("-list" if len(names) > 1 else ""), (len(names), link, pick), got, want, **info)
        if arg != keep:
            r.violation("source-list-modified", **info)
        # seen from a tool inside the workflow, the workflow being the parent
        if rng.random() < 0.3 and "#" in (arg if isinstance(arg, str) else arg[0]):
            st = rng.choice(wf.steps)
            with common.quiet():
                tool = U.load_step(st)
                got = U.type_for_source(tool, v, arg, wf, linkMerge=link, pickValue=pick)
            judge(r, "type_for_source-parent", (len(names), link, pick), got, want, **info)
        if rng.random() < 0.4:
            with common.quiet():
                ps = U.param_for_source_id(wf, arg)
            ps = ps if isinstance(ps, list) else [ps]
            r.see("param_for_source_id")
            if [wfmodel.last(p.id) for p in ps] != [n.split("/")[-1] for n in names]:
                r.violation("param_for_source_id", got=[p.id for p in ps], **info)
            elif [T.of(p.type_) for p in ps] != [w.sources[n]["type"] for n in names]:
                r.violation("param_for_source_id-type", got=[T.text(T.of(p.type_)) for p in ps], **info)
    # unresolvable
    base = rng.choice(list(ids.values()))
    for bad in (base + "x", base.rsplit("/", 1)[0] + "/nope" if "/" in base.split("#")[-1] else base.split("#")[0] + "#nope",
                base.split("#")[0] + "#nostep/out"):
        good = [rng.choice(list(ids.values())) for _ in range(rng.choice([0, 1, 2]))]
        arg = rng.sample(good + [bad], len(good) + 1) if good or rng.random() < 0.5 else bad
        if bad in ids.values():
            continue
        try:
            with common.quiet():
                got = U.type_for_source(wf, v, arg)
            r.violation("unresolvable-source-accepted", version=v, sources=arg, got=repr(got))
        except (WorkflowException, ValidationException) as e:
            r.see("unresolvable reported")
            if bad.split("#")[-1] not in str(e):
                r.violation("unresolvable-not-named", sources=arg, message=str(e)[:300])
    # steps
    for name, st in steps.items():
        m = models[name]
        for in_ in st.in_:
            s = next(x for x in m.ins if x["name"] == wfmodel.last(in_.id))
            want = T.P("Any") if s["valueFrom"] is not None or s["unknown"] else s["type"]
            with common.quiet():
                got = U.type_for_step_input(st, in_, v)
            judge(r, "type_for_step_input", (m.form, m.cls, s["scattered"]), got, want, version=v, form=m.form, cls=m.cls,
                  input=s["name"], scatter=m.scatter)
        for o in m.outs:
            want = eff(name + "/" + o)
            with common.quiet():
                got = U.type_for_step_output(st, ids[name + "/" + o], v)
            judge(r, "type_for_step_output", (m.form, m.cls, len(m.scatter), m.method), got, want, version=v, form=m.form, cls=m.cls,
                  output=o, scatter=m.scatter, method=m.method)
        try:
            with common.quiet():
                got = U.type_for_step_output(st, ids[name + "/" + o] + "_nope", v)
            r.violation("unknown-step-output-accepted", got=repr(got))
        except (WorkflowException, ValidationException):
            r.see("unknown step output reported")
    if objdump.dump(wf) != before:
        r.violation("workflow-modified", diff=objdump.diff(before, objdump.dump(wf)), version=v)


def chunk(k, r):
    for i in range(k * 3, k * 3 + 3):
        one(i, r)


def body(c):
    for n in ("type_for_source", "type_for_source-list", "type_for_source-parent", "type_for_step_input", "type_for_step_output",
              "param_for_source_id", "unresolvable reported", "unknown step output reported"):
        c.need(n, 150)
    c.add(common.pool_run(chunk, range(scale(80, 3000))))


common.main(C, body)
