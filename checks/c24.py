"""C24 objects: equality is equality of content, and objects made by their constructors are worth loaded ones."""
import collections, copy, inspect, json, os, shutil, tempfile
import common, docs, gen, objdump, salad_ref
from common import scale
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2, save, load_document_by_string

C = common.Check("C24", "random valid documents of three versions: loaded twice, every object compared with its twin, with its twin changed in one "
                 "field, and with the other objects of the document; rebuilt from the constructors, compared and saved; non-trivial = at "
                 "least 8 objects; distinct by document")
MODULES = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
META = ("self", "extension_fields", "loadingOptions")


def objects(x, out, path=""):
    """All CWL objects, each with its path."""
    if objdump.is_cwl_object(x):
        out.append((path, x))
        for p in params(x):
            objects(getattr(x, p), out, path + "/" + p)
    elif isinstance(x, dict):
        for k, v in x.items():
            objects(v, out, path + "/" + str(k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            objects(v, out, "%s[%d]" % (path, i))
    return out


def params(o):
    return [p for p in inspect.signature(type(o).__init__).parameters if p not in META]


def content(x):
    """What counts for equality: the class and the fields; extensions do not."""
    if objdump.is_cwl_object(x):
        return {"": type(x).__name__, **{p: content(getattr(x, p)) for p in params(x)}}
    if isinstance(x, dict):
        return {str(k): content(v) for k, v in x.items()}
    if isinstance(x, list):
        return [content(v) for v in x]
    return x


def rebuild(x, options):
    """The same object, made by constructors."""
    if objdump.is_cwl_object(x):
        kw = {p: rebuild(getattr(x, p), options) for p in params(x)}
        kw = {k: v for k, v in kw.items() if v is not None or inspect.signature(type(x).__init__).parameters[k].default is inspect.Parameter.empty}
        if x.extension_fields:
            kw["extension_fields"] = x.extension_fields
        if options:
            kw["loadingOptions"] = options
        return type(x)(**kw)
    if isinstance(x, dict):
        return {k: rebuild(v, options) for k, v in x.items()}
    if isinstance(x, list):
        return [rebuild(v, options) for v in x]
    return x


class Other:
    """Equal to nothing but itself."""


def eq(a, b):
    e = a == b
    if (b == a) != e or (a != b) == e:
        return "asymmetric"
    return e


def one(version, rng, g, d, r):
    packed = rng.random() < 0.15
    doc = docs.packed(g, rng)[0] if packed else gen.document(g)
    path = gen.write_doc(d, "a.cwl", doc, rng)
    try:
        a, b = docs.load(path, load_all=packed), docs.load(path, load_all=packed)
    except Exception:
        r.see("not loaded")
        return
    A, B = objects(a, []), objects(b, [])
    info = dict(version=version, doc=doc)
    r.case(doc, len(A) > 7, {"objects": len(A), "classes": sorted({type(o).__name__ for p, o in A})[:12]})
    if [p for p, o in A] != [p for p, o in B]:
        return r.violation("loads-differ", **info)
    by = collections.defaultdict(list)
    for (p, x), (q, y) in zip(A, B):
        name = type(x).__name__
        same = json.dumps(anon(content(x)), default=repr) == json.dumps(anon(content(y)), default=repr)
        twin = content(x) == content(y)     # anonymous objects have names of their own
        if not same:
            return r.violation("loads-differ", path=p, **info)
        e = eq(x, y)
        r.see("twins compared" if twin else "anonymous twins")
        r.cov.add(name)
        if e != twin:
            r.violation("equality-of-twins", path=p, cls=name, got=e, want=twin, **info)
        if eq(x, x) is not True:
            r.violation("not-equal-to-itself", path=p, cls=name, **info)
        if eq(x, content(x)) is not False or eq(x, None) is not False:
            r.violation("equal-to-other-kind", path=p, cls=name, **info)
        for f in params(x):
            z = copy.copy(x)
            setattr(z, f, Other())
            r.see("one field changed")
            if eq(x, z) is not False:
                r.violation("field-ignored", cls=name, field=f, path=p, **info)
        hashes(x, copy.copy(x), r, p, info)
        by[name].append((p, x))
    for name, xs in by.items():
        for _ in range(min(10, len(xs) * 2)):
            (p, x), (q, y) = rng.choice(xs), rng.choice(xs)
            want = content(x) == content(y)
            r.see("others compared, equal" if want else "others compared, unequal")
            if eq(x, y) != want:
                r.violation("equality", paths=[p, q], cls=name, got=eq(x, y), want=want, **info)
    names = list(by)
    for _ in range(6):
        n, m = rng.choice(names), rng.choice(names)
        if n != m:
            (p, x), (q, y) = rng.choice(by[n]), rng.choice(by[m])
            if eq(x, y) is not False:
                r.violation("equal-to-other-class", paths=[p, q], classes=[n, m], got=eq(x, y), **info)
            r.see("classes compared")
    if not packed:
        made(version, rng, a, path, d, r, info)


def hashes(x, y, r, p, info):
    try:
        h = hash(x)
    except TypeError:
        r.see("not hashable")
        return
    r.see("hashed")
    if hash(y) != h:
        r.violation("hash", path=p, cls=type(x).__name__, **info)


def anon(x):
    """Content with the generated names left out."""
    return json.loads(objdump.ANON.sub("_:", json.dumps(x, default=repr)))


def made(version, rng, a, path, d, r, info):
    """The document made by constructors."""
    options = rng.random() < 0.5 and a.loadingOptions
    m = rebuild(a, options)
    r.see("rebuilt")
    if eq(m, a) is not True:
        r.violation("rebuilt-unequal", options=bool(options), **info)
    O = objects(m, [])
    if not options:
        for what in ("extension_fields", "loadingOptions"):
            if len({id(getattr(o, what)) for p, o in O if not o.extension_fields}) != len([o for p, o in O if not o.extension_fields]):
                r.violation("shared-" + what, **info)
        r.see("own fields")
    # (with no loading options the namespaces of the document are not known to the objects)
    for rel in (True, False):
        kw = dict(relative_uris=rel, base_url="file://" + path)
        with common.quiet():
            want, got = save(a, **kw), save(m, **kw)
        want, got = (json.loads(json.dumps({k: v for k, v in x.items() if not k.startswith("$")}, default=str)) for x in (want, got))
        if not options and (gen.EXT in json.dumps(want, ensure_ascii=False) or "ex:" in json.dumps(want)):
            r.see("prefixes not compared")
            continue
        r.see("saved and compared")
        if want != got:
            r.violation("saved-differs", relative=rel, options=bool(options), diff=objdump.diff(want, got), **info)


def chunk(item, r):
    version, k = item
    rng = C.rng("chunk", version, k)
    g = gen.Gen(rng, version, p_opt=rng.choice([0.2, 0.4, 0.7]))
    d = tempfile.mkdtemp(dir=C.scratch)
    docs.setup(d)
    for _ in range(6):
        one(version, rng, g, d, r)
    shutil.rmtree(d)


def body(c):
    for n, m in (("twins compared", 3000), ("one field changed", 10000), ("others compared, equal", 300), ("others compared, unequal", 1500),
                 ("classes compared", 500), ("hashed", 50), ("rebuilt", 200), ("own fields", 80), ("saved and compared", 200)):
        c.need(n, m)
    c.add(common.pool_run(chunk, [(v, k) for k in range(scale(30, 2000)) for v in salad_ref.VERSIONS]))
    c.extra["classes_reached"] = sorted(c.total.cov)


common.main(C, body)
