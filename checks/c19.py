"""C19 file formats: check_format() against a closure computed from the triples."""
import copy, json
import common, gen
from common import scale
from rdflib import BNode, Graph, Literal, OWL, RDF, RDFS, URIRef
from schema_salad.exceptions import ValidationException
from cwl_utils.file_formats import check_format, formatSubclassOf

C = common.Check("C19", "one check of a list of files against formats and a random ontology (chains, diamonds, cycles, equivalences "
                 "both ways, unrelated triples); distinct by content; non-trivial = the verdict depends on the ontology or on one "
                 "file among several")
BASE = ["http://edamontology.org/format_", "http://example.com/x#", "http://example.com/x/", "urn:fmt:"]
STATUS = "accepted", "rejected"


def ontology(rng):
    """Triples over some formats; the shapes a reader can get wrong are made on purpose."""
    names = [rng.choice(BASE) + str(i) for i in range(rng.choice([2, 4, 8, 30]))]
    if rng.random() < 0.3:
        names += [n + "0" for n in names[:3]]       # one name a prefix of another
    sub, eq = set(), set()
    shape = rng.choice(["random", "chain", "diamond", "cycle", "equivalent", "mixed", "none"])
    order = names[:]
    rng.shuffle(order)
    if shape in ("chain", "cycle", "mixed"):
        for a, b in zip(order, order[1:]):
            if shape != "mixed" or rng.random() < 0.6:
                sub.add((a, b))
            else:
                eq.add((a, b) if rng.random() < 0.5 else (b, a))
        if shape == "cycle":
            k = rng.randrange(len(order))
            sub.add((order[-1], order[k]))
    elif shape == "diamond":
        for a in order[1:-1]:
            sub |= {(order[0], a), (a, order[-1])} if rng.random() < 0.8 else {(order[0], a)}
    elif shape == "equivalent":
        for a, b in zip(order, order[1:]):
            if rng.random() < 0.8:
                eq.add((a, b) if rng.random() < 0.5 else (b, a))
    if shape != "none":
        for _ in range(rng.choice([0, 1, len(names)])):
            (sub if rng.random() < 0.7 else eq).add((rng.choice(names), rng.choice(names)))
    return names, sub, eq, shape


def closure(names, sub, eq):
    up = {n: set() for n in names}
    for a, b in sub:
        up[a].add(b)
    for a, b in eq:
        up[a].add(b)
        up[b].add(a)
    out = {}
    for n in names:
        seen, todo = {n}, [n]
        while todo:
            for x in up[todo.pop()]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        out[n] = seen
    return out


def graph(rng, names, sub, eq):
    t = [(URIRef(a), RDFS.subClassOf, URIRef(b)) for a, b in sub] + [(URIRef(a), OWL.equivalentClass, URIRef(b)) for a, b in eq]
    for n in names:
        if rng.random() < 0.5:
            t.append((URIRef(n), RDF.type, OWL.Class))
        if rng.random() < 0.3:
            t.append((URIRef(n), RDFS.label, Literal("x" + n[-1])))
        if rng.random() < 0.2:
            b = BNode()
            t += [(URIRef(n), RDFS.subClassOf, b), (b, RDF.type, OWL.Restriction)]
        if rng.random() < 0.3:      # related, but not as a subclass
            t.append((URIRef(n), rng.choice([RDFS.seeAlso, OWL.disjointWith, RDFS.subPropertyOf]), URIRef(rng.choice(names))))
    rng.shuffle(t)
    g = Graph()
    for x in t:
        g.add(x)
    if rng.random() < 0.3:
        fmt = rng.choice(["turtle", "xml", "nt"])
        g = Graph().parse(data=g.serialize(format=fmt), format=fmt)
    return g


def one(rng, r):
    names, sub, eq, shape = ontology(rng)
    up = closure(names, sub, eq)
    onto = None if rng.random() < 0.1 else graph(rng, names, sub, eq)
    if onto is None:
        up = {n: {n} for n in names}
    stranger = ["http://elsewhere.org/fmt", "plain"]
    formats = [rng.choice(names + stranger[:1]) for _ in range(rng.choice([1, 1, 2, 3]))]
    ok_formats = [n for n in names if up[n] & set(formats)] + formats
    bad_formats = [n for n in names + stranger if not (up.get(n, {n}) & set(formats))]
    n = rng.choice([0, 1, 1, 2, 3, 5])
    files, why = [], None
    good = rng.random() < 0.5
    at = rng.randrange(n) if n and not good else None
    for i in range(n):
        f = {"class": "File", "location": "file:///data/%d_%s.txt" % (i, "éx y"[rng.randrange(4)]), "basename": "f%d.txt" % i}
        bad = i == at or (not good and rng.random() < 0.2)
        if bad and (rng.random() < 0.3 or not bad_formats):
            pass
        elif bad:
            f["format"] = rng.choice(bad_formats)
        else:
            f["format"] = rng.choice(ok_formats)
        if bad and why is None:
            why = f
        files.append(f)
        if rng.random() < 0.1:
            files.append(None)
    arg = files
    if len(files) == 1 and rng.random() < 0.6:
        arg = files[0]
    if not files and rng.random() < 0.3:
        arg = None
    fs = formats[0] if len(formats) == 1 and rng.random() < 0.5 else formats
    before = copy.deepcopy((arg, fs)), onto is not None and set(onto)
    info = dict(files=arg, formats=fs, sub=sorted(sub), eq=sorted(eq), shape=shape, ontology=onto is not None)
    r.case(info, len(files) > 1 or bool(sub or eq), info)
    r.see("shape " + shape)
    msg = None
    try:
        check_format(arg, fs, onto)
    except ValidationException as e:
        msg = str(e)
    except Exception as e:
        r.violation("other-exception", error="%s: %s" % (type(e).__name__, str(e)[:500]), **info)
        return
    r.see("rejected" if why else "accepted")
    if why and files.index(why) > 0:
        r.see("rejected later file")
    if why and not msg:
        r.violation("bad-file-accepted", file=why, **info)
    elif msg and not why:
        r.violation("good-files-rejected", message=msg, **info)
    elif why and json.dumps(why["location"])[1:-1] not in msg and why["location"] not in msg:
        r.violation("file-not-named", message=msg, file=why, **info)
    if ((arg, fs), onto is not None and set(onto)) != before:
        r.violation("arguments-modified", **info)
    a, b = rng.choice(names), rng.choice(names)
    got = formatSubclassOf(a, b, onto, set())
    r.see("subclass %s" % (b in up[a]))
    if bool(got) != (b in up[a]):
        r.violation("subclass-of", a=a, b=b, expected=b in up[a], got=got, **info)


def chunk(k, r):
    rng = C.rng("formats", k)
    for _ in range(100):
        one(rng, r)


def body(c):
    for n in ("accepted", "rejected", "rejected later file", "subclass True", "subclass False"):
        c.need(n, 1000)
    for s in ("random", "chain", "diamond", "cycle", "equivalent", "mixed", "none"):
        c.need("shape " + s, 500)
    c.add(common.pool_run(chunk, range(scale(150, 6000))))


common.main(C, body)
