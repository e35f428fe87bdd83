"""Independent model of CWL types: a type is a frozenset of alternatives, an alternative is
("p", name) | ("a", type) | ("r", ((field, type), ...)) | ("e", frozenset of symbols)."""
from __future__ import annotations

PRIMS = ["boolean", "int", "long", "float", "double", "string", "File", "Directory"]
NULL, ANY = ("p", "null"), ("p", "Any")


def P(*names):
    return frozenset(("p", n) for n in names)


def arr(t):
    return frozenset([("a", t)])


def rand(rng, depth=0, any_=True, prims=PRIMS):
    """A random type."""
    if depth < 3 and rng.random() < 0.3:
        n = rng.choice([1, 2, 2, 3, 4])
        t = frozenset(alt(rng, depth + 1, False, prims) for _ in range(n))
        return t | {NULL} if rng.random() < 0.5 else t
    return frozenset([alt(rng, depth, any_, prims)])


def alt(rng, depth, any_, prims):
    k = rng.random()
    if depth >= 4 or k < 0.5:
        if any_ and rng.random() < 0.05:
            return ANY
        return ("p", rng.choice(prims))
    if k < 0.72:
        return ("a", rand(rng, depth + 1, any_, prims))
    if k < 0.86:
        names = rng.sample(["a", "b", "c", "d", "e"], rng.choice([1, 1, 2, 3]))
        return ("r", tuple((n, rand(rng, depth + 1, any_, prims)) for n in sorted(names)))
    return ("e", frozenset(rng.sample(["red", "green", "blue", "s-1", "x.y"], rng.choice([1, 2, 3]))))


def vary(rng, t, prims=PRIMS):
    """A type related to t: a few edits anywhere inside it."""
    t = set(t)
    k = rng.random()
    if k < 0.2 and len(t) > 1:
        t.discard(rng.choice(sorted(t, key=repr)))
    elif k < 0.35:
        t.add(alt(rng, 2, False, prims))
    elif k < 0.5:
        t ^= {NULL}
        t = t or {NULL}
    elif k < 0.95:
        a = rng.choice(sorted(t, key=repr))
        t.discard(a)
        t.add(vary_alt(rng, a, prims))
    else:
        t = {alt(rng, 1, True, prims)}
    if ANY in t and len(t) > 1:
        t.discard(ANY)
    return frozenset(t)


def vary_alt(rng, a, prims):
    if a[0] == "p":
        return ("p", rng.choice(prims)) if rng.random() < 0.7 else ("a", frozenset([a]) if a != NULL else P("int"))
    if a[0] == "a":
        if rng.random() < 0.2:
            return rng.choice(sorted(a[1], key=repr))
        return ("a", vary(rng, a[1], prims))
    if a[0] == "e":
        s = set(a[1]) ^ {rng.choice(["red", "green", "blue", "s-1", "x.y"])}
        return ("e", frozenset(s or {"red"}))
    f = dict(a[1])
    k = rng.random()
    if k < 0.3 and len(f) > 1:
        del f[rng.choice(sorted(f))]
    elif k < 0.5:
        f[rng.choice("abcdefg")] = rand(rng, 3, False, prims)
    else:
        n = rng.choice(sorted(f))
        f[n] = vary(rng, f[n], prims)
    return ("r", tuple((n, f[n]) for n in sorted(f)))


def json_of(t, rng=None, fresh=None, single_list=0.1):
    """CWL JSON of the type; records and enums get a fresh name when `fresh` is given."""
    alts = sorted(t, key=repr)
    if rng:
        rng.shuffle(alts)
    js = [json_alt(a, rng, fresh) for a in alts]
    if len(js) == 1 and not (rng and rng.random() < single_list):
        return js[0]
    return js


def json_alt(a, rng, fresh):
    if a[0] == "p":
        return a[1]
    if a[0] == "a":
        return {"type": "array", "items": json_of(a[1], rng, fresh)}
    if a[0] == "r":
        fs = list(a[1])
        if rng:
            rng.shuffle(fs)
        out = {"type": "record", "fields": [{"name": n, "type": json_of(t, rng, fresh)} for n, t in fs]}
    else:
        s = sorted(a[1])
        if rng:
            rng.shuffle(s)
        out = {"type": "enum", "symbols": s}
    if fresh and (rng is None or rng.random() < 0.5):
        out["name"] = fresh()
    return out


def last(name):
    return str(name).split("#")[-1].split("/")[-1]


def of(x):
    """The model of a loaded type."""
    if isinstance(x, (list, tuple)):
        out = frozenset()
        for e in x:
            out |= of(e)
        return out
    if isinstance(x, str):
        return P(str(x))
    t = getattr(x, "type_", None)
    if t == "array":
        return frozenset([("a", of(x.items))])
    if t == "record":
        return frozenset([("r", tuple(sorted(((last(f.name), of(f.type_)) for f in x.fields or []), key=lambda p: p[0])))])
    if t == "enum":
        return frozenset([("e", frozenset(last(s) for s in x.symbols))])
    raise TypeError("not a type: %r" % (x,))


def accepts(src, sink, strict, null_any=True):
    """Can a value of src be used as sink: all alternatives (strict) or some non-null one."""
    alts = set(src)
    if ANY in src and src == frozenset([ANY]) or sink == frozenset([ANY]):
        if null_any or NULL not in src:
            return True
    if not strict and len(alts) > 1:
        alts.discard(NULL)
    test = all if strict else any
    return test(any(alt_accepts(a, b, strict, null_any) for b in sink) for a in alts)


def alt_accepts(a, b, strict, null_any):
    if a == ANY or b == ANY:
        return null_any or a != NULL
    if a[0] != b[0]:
        return False
    if a[0] == "p":
        return a == b
    if a[0] == "a":
        return accepts(a[1], b[1], strict, null_any)
    if a[0] == "e":
        return a[1] <= b[1] if strict else bool(a[1] & b[1])
    f = dict(a[1])
    return all(accepts(f.get(n, frozenset([NULL])), t, strict, null_any) for n, t in b[1])


def verdict(src, sink, null_any=True):
    if accepts(src, sink, True, null_any):
        return "pass"
    return "warning" if accepts(src, sink, False, null_any) else "exception"


def flatten1(t):
    """One source merged by flattening."""
    return frozenset(a if a[0] == "a" else ("a", frozenset([a])) for a in t)


def items(t):
    out = frozenset()
    for a in t:
        out |= a[1]
    return out


def text(t):
    """Readable form."""
    out = []
    for a in sorted(t, key=repr):
        if a[0] == "p":
            out.append(a[1])
        elif a[0] == "a":
            out.append("[" + text(a[1]) + "]")
        elif a[0] == "e":
            out.append("enum(" + ",".join(sorted(a[1])) + ")")
        else:
            out.append("rec(" + ", ".join(n + ": " + text(x) for n, x in a[1]) + ")")
    return " | ".join(out)
