"""C06 parameter references and string interpolation against expectations known by construction."""
import copy, json
import common
from common import scale
from cwl_utils.errors import WorkflowException
from cwl_utils.expression import do_eval, interpolate

C = common.Check("C06", "one string built from literal text, escapes and references (random paths into random data, random "
                 "spelling of each segment), evaluated by do_eval with and without InlineJavascriptRequirement for one CWL "
                 "version; the expected value is known from how the string was built; non-trivial = it holds a reference, an "
                 "escape or a malformed expression; distinct by string and data")
OLD = ("v1.0", "v1.1.0-dev1", "v1.1", "v1.2.0-dev1", "v1.2.0-dev2", "v1.2.0-dev3")
NEW = ("v1.2", "v1.2.0-dev4", "v1.2.0-dev5", "", "v1.3.0-dev1")
KEYCH = ["a", "b", "key", "x1", "é", "日本", "Z_", "0", "7", "length", "class", "a b", "it's", 'q"q', "p)q", "(", "]", "[0]", "a.b",
         "$", "$(x)", "{", "}", "-", "", "null", "self", "\n", "𝄞", "#", "constructor", "toString"]
TEXTS = ["", "x", "hello world", "é日本𝄞", "a'b\"c", "$(inputs.a)", "${return 1}", "back\\slash", "\\$(x)", "1", "null", "true", " pad ",
         "line\nbreak\ttab", '"quoted"', "[1]", "{}", "%s {0}", "\u2028", "\x7f\x01"]
REQ = [{"class": "InlineJavascriptRequirement"}]


def value(rng, depth=0):
    k = rng.random()
    if depth < 4 and k < 0.25:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 12]))]
    if depth < 4 and k < 0.5:
        return {rng.choice(KEYCH): value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 4]))}
    if depth < 4 and k < 0.6:
        f = {"class": rng.choice(["File", "Directory", "Other"]), "location": "file:///x/y.txt", "path": "/x/y.txt",
             "basename": "y.txt", "size": rng.choice([0, 12, 2 ** 40])}
        if rng.random() < 0.5:
            f.update({"nameroot": "y", "nameext": ".txt", "secondaryFiles": [value(rng, depth + 1)], "extra": value(rng, depth + 1)})
        if f["class"] == "Directory":
            f["listing"] = [value(rng, depth + 1)]
        return f
    return rng.choice([None, True, False, 0, 1, -1, 7, 2 ** 31, 2 ** 53, 10 ** 18, 0.0, 1.5, -2.25, 1e300, 1e-7,
                       rng.randint(-10 ** 6, 10 ** 6)] + rng.sample(TEXTS, 6))


def with_bytes(rng, v):
    """The same value with some strings as bytes."""
    if isinstance(v, dict):
        return {k: with_bytes(rng, x) for k, x in v.items()}
    if isinstance(v, list):
        return [with_bytes(rng, x) for x in v]
    if isinstance(v, str) and rng.random() < 0.5:
        return v.encode("utf-8")
    return v


def quoted(rng, key):
    q = rng.choice("'\"")
    return "[%s%s%s]" % (q, key.replace(q, "\\" + q), q)


def wordy(key):
    return key != "" and all(c.isalnum() or c == "_" for c in key)


def reference(rng, ctx):
    """(text of a parameter reference, its value), or None when the walk meets an unspellable key."""
    if rng.random() < 0.04:
        return "$(null)", None
    first = rng.choice(["inputs", "inputs", "inputs", "self", "runtime"])
    text, v = first, ctx[first]
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])):
        if isinstance(v, dict) and v:
            key = rng.choice(list(v))
            if key == "":
                return None
            if wordy(key) and rng.random() < 0.6:
                text += "." + key
            else:
                text += quoted(rng, key)
            v = v[key]
        elif isinstance(v, list):
            if not v or rng.random() < 0.2:
                return "$(" + text + rng.choice([".length", "['length']", '["length"]']) + ")", len(v)
            i = rng.randrange(len(v))
            text += "[%s%d]" % ("0" if rng.random() < 0.1 and not JS[0] else "", i)
            v = v[i]
        else:
            break
    return "$(" + text + ")", v


JS = [False]
JSPARTS = [("$(1+1)", 2), ('$("a" + "b")', "ab"), ("${return '}' + \"{\";}", "}{"), ("$([1, [2]])", [1, [2]]), ("$( (1) )", 1),
           ("${ if (true) { return {a: null}; } }", {"a": None}), ("$(\")\")", ")"), ("$('\\')')", "')"), ("$(\"it's\")", "it's"),
           ("${return 'it\\'s }';}", "it's }"), ("$(false)", False), ("$([])", []), ("${return null;}", None), ("$(\"\\\\\")", "\\"),
           ("$(inputs === undefined ? 1 : 'def')", "def"), ('$("日本")', "日本"), ("$(0)", 0), ('$("")', "")]
LITCH = ["a", "Z", "é", "日", " ", "  ", "\t", "\n", ".", ",", "/", ":", "-", "_", "'", '"', "(", ")", "{", "}", "[", "]", "#", "%", "&", "1",
         "0", "null", "$", "$ ", "$a", "inputs.a", "=", "𝄞", "~"]


def literal(rng):
    out = ""
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        c = rng.choice(LITCH)
        if out.endswith("$") and c[0] in "({":
            c = "x"
        out += c
    return out


def escape(rng, old):
    """(source, text it stands for)"""
    if old:
        s = rng.choice(["\\\\", "\\n", "\\$", "\\'", '\\"', "\\a", "\\(", "\\é"])
        return s, s[1:]
    s = rng.choice(["\\\\", "\\$(", "\\${", "\\n", "\\$x", "\\'", '\\"', "\\(", "\\{", "\\é"])
    return s, ("\\" if s == "\\\\" else s[1:] if s in ("\\$(", "\\${") else s)


def build(rng, ctx, old):
    """(source, parts) where a part is ('text', t) or ('val', v)."""
    src, parts = [], []
    n = rng.choice([1, 1, 1, 2, 3, 4, 6])
    for i in range(n):
        k = rng.random()
        if n == 1 or k < 0.45:
            if JS[0] and rng.random() < 0.3:
                ref = rng.choice(JSPARTS)
            else:
                ref = reference(rng, ctx)
            if ref is None:
                return None
            src.append(ref[0]); parts.append(("val", ref[1]))
        elif k < 0.65:
            s, t = escape(rng, old)
            src.append(s); parts.append(("text", t))
        else:
            t = literal(rng)
            if parts and src[-1].endswith("$") and t[0] in "({":
                t = "x" + t
            src.append(t); parts.append(("text", t))
    return src, parts


def render(parts, style):
    out = ""
    for k, v in parts:
        out += v if k == "text" or isinstance(v, str) else json.dumps(v, **style)
    return out


STYLES = [{"sort_keys": True}, {"sort_keys": True, "ensure_ascii": False}, {"sort_keys": True, "separators": (",", ":")},
          {"sort_keys": True, "separators": (",", ":"), "ensure_ascii": False}]


def same(a, b):
    return common.jdump(a) == common.jdump(b) and typed(a) == typed(b)


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    return type(v).__name__


def broken(rng, ctx, js):
    """Text of an expression that has no value."""
    for _ in range(50):
        k = rng.randrange(12)
        if k == 0:
            return rng.choice(["$(nosuch)", "$(nosuch.a)", "$(Inputs)", "$(input.a)", "$(inputs_)", "$(undefined)"])
        if k == 1:
            return rng.choice(["$(inputs.no_such_key)", "$(inputs['no such'])", "$(runtime.no_such)", "$(inputs.no.such)"])
        if k == 2:
            return rng.choice(["$()", "$(inputs.)", "$(inputs..a)", "$(inputs[])", "$(inputs['a)", "$(inputs.a", "${return 1",
                               "$(inputs['a'", '$(inputs["a)', "$(inputs[\"a\"]", "$(inputs.a b)", "$(.a)",
                               "$((inputs)", "$(inputs.a\\)"])
        ref = reference(rng, ctx)
        if ref is None:
            continue
        body, v = ref[0][2:-1], ref[1]
        if body == "null" or body.endswith(("length", "length']", 'length"]')):
            continue
        if isinstance(v, list):
            return "$(%s[%d])" % (body, len(v) + rng.choice([0, 1, 100, 10 ** 9])) if k < 9 else "$(%s.nope)" % body
        if isinstance(v, dict):
            return "$(%s%s)" % (body, rng.choice([".nope", "['no pe']", "[0]" if not js else ".nope", ".nope.deeper", "[\"nope\"][0]"]))
        if v is None:
            return "$(%s%s)" % (body, rng.choice([".a", "[0]", ".length", "['x'].y"]))
        if not js and k >= 6:
            return "$(%s%s)" % (body, rng.choice([".length", "[0]", ".a"]))
        if not isinstance(v, str):
            return "$(%s%s)" % (body, rng.choice([".nope", "[0]", "['x']"]))
    return "$(nosuch)"


def run(ex, ctx, js, version, **kw):
    reqs = ([{"class": "ShellCommandRequirement"}] + REQ) if js else []
    return do_eval(ex, ctx["inputs"], reqs, "/out", "/tmpd", {"cores": 2, "ram": 1024.5}, context=ctx["self"],
                   cwlVersion=version, timeout=60, **kw)


def chunk(item, r):
    js, seed, n = item
    rng = C.rng("c06", js, seed)
    JS[0] = js
    for i in range(n):
        one(rng, js, r)


def one(rng, js, r):
    clean = {"inputs": {rng.choice(KEYCH): value(rng) for _ in range(4)}, "self": value(rng),
             "runtime": {"cores": 2, "ram": 1024.5, "tmpdir": "/tmpd", "outdir": "/out"}}
    clean["inputs"]["a"] = value(rng)
    clean["inputs"].pop("no", None)
    given = with_bytes(rng, clean) if rng.random() < 0.25 else copy.deepcopy(clean)
    before = copy.deepcopy(given)
    version = rng.choice(OLD + NEW)
    old = version in OLD
    strip = rng.random() < 0.8
    with common.quiet():
        for _ in range(6):
            if rng.random() < 0.25:
                ex = broken(rng, clean, js)
                if rng.random() < 0.5:
                    ex = rng.choice(["pre ", "$(inputs.a) "]) + ex
                if rng.random() < 0.3 and not ex.endswith(("$(inputs['a)", '$(inputs["a)')):
                    ex = ex + rng.choice([" post", "-$(self)"])
                    if scan_open(ex):
                        continue
                r.case([ex, clean, js, "broken"], True, {"expression": ex})
                r.see("malformed")
                try:
                    got = run(ex, given, js, version)
                except WorkflowException:
                    continue
                except Exception as e:
                    r.violation("wrong-exception", expression=ex, error=repr(e), data=clean, js=js)
                    continue
                r.violation("silent-value", expression=ex, got=got, data=clean, js=js, version=version)
                continue
            b = build(rng, clean, old)
            if b is None:
                continue
            src, parts = b
            pad = (rng.choice(["", "", "", " ", "\n ", "\t"]), rng.choice(["", "", "", " ", " \n"]))
            ex = pad[0] + "".join(src) + pad[1]
            if "$(" not in ex and "${" not in ex:
                want = ("is", ex)
            else:
                parts = [("text", pad[0])] + parts + [("text", pad[1])]
                if strip:
                    st = ex.strip()
                    lead, tail = ex[:len(ex) - len(ex.lstrip())], ex[len(ex.rstrip()):]
                    # white space at the ends belongs to literal text or escapes; drop it from there
                    if not cut(parts, src, lead, tail):
                        continue
                    if not st:
                        continue
                parts = [p for p in parts if p != ("text", "")]
                if len(parts) == 1 and parts[0][0] == "val":
                    want = ("is", parts[0][1])
                    r.see("whole references")
                else:
                    want = ("text", [render(parts, s) for s in STYLES])
                    r.see("interpolations")
            r.case([ex, clean, js, version], True, {"expression": ex, "want": want[1] if want[0] == "is" else want[1][0]})
            try:
                got = run(ex, given, js, version, strip_whitespace=strip)
            except Exception as e:
                r.violation("unexpected-error", expression=ex, error=repr(e)[:500], data=clean, js=js, version=version)
                continue
            if want[0] == "is" and not same(got, want[1]) or want[0] == "text" and got not in want[1]:
                r.violation("wrong-value", expression=ex, got=got, want=want[1], data=clean, js=js, version=version, strip=strip)
            r.see("values compared")
        for ex in (None, 5, True, 1.5, ["$(inputs.a)"], {"a": "$(nosuch)"}, "no expression \\$ here \\\\ $ ( ", " x ", ""):
            if rng.random() < 0.3:
                keep = copy.deepcopy(ex)
                if not same(run(ex, given, js, version), keep) or not same(ex, keep):
                    r.violation("non-expression-changed", expression=keep, js=js)
                r.see("non-expressions")
    if given != before or typed(given) != typed(before):
        r.violation("inputs-modified", before=before, after=given)


def scan_open(ex):
    """Text appended behind an unclosed bracket or quote may close it."""
    return any(ex.startswith(x) or (" " + x) in ex for x in ("$(inputs['a", "$(inputs[\"a", "$(inputs.a ", "${return 1",
                                                             "$((inputs)", "$(inputs.a-")) or "$(inputs.a\\" in ex


def cut(parts, src, lead, tail):
    """Remove leading/trailing white space of the source from the literal parts; False if it is not plain text there."""
    full = parts
    for white, order in ((lead, range(len(full))), (tail, range(len(full) - 1, -1, -1))):
        left = len(white)
        for i in order:
            if not left:
                break
            k, t = full[i]
            s = ([""] + src + [""])[i]
            if k != "text" or s.startswith("\\"):
                return False
            n = min(left, len(t))
            full[i] = (k, t[n:] if order.step == 1 else t[:len(t) - n])
            left -= n
        if left:
            return False
    return True


def libraries(k, r):
    """Several InlineJavascriptRequirements (inherited ones first): the library of the last is the one that counts."""
    rng = C.rng("libraries", k)
    for _ in range(12):
        reqs, n = [], rng.choice([1, 2, 2, 3])
        for i in range(n):
            lib = ["var name%d = 1;" % j for j in range(rng.choice([0, 1]))] + ["function f() { return 'f%d'; }" % i]
            if i < n - 1 and rng.random() < 0.5:
                lib.append("var only = 'only%d';" % i)
            if i == n - 1:
                lib.append("var only%d = 'x';" % i)
            rng.shuffle(lib)
            reqs.append({"class": "InlineJavascriptRequirement", "expressionLib": lib})
            if rng.random() < 0.3:
                reqs.append({"class": rng.choice(["ShellCommandRequirement", "StepInputExpressionRequirement"])})
        if rng.random() < 0.25:
            reqs.append({"class": "InlineJavascriptRequirement"})
            ex, want = rng.choice([("$(typeof f)", "undefined"), ("$(typeof only)", "undefined")])
        else:
            ex, want = rng.choice([("$(f())", "f%d" % (n - 1)), ("<$(f() + 1)>", "<f%d1>" % (n - 1)), ("${return f();}", "f%d" % (n - 1)),
                                   ("$(only%d + f())" % (n - 1), "xf%d" % (n - 1)), ("$(typeof only)", "undefined")])
        before = copy.deepcopy(reqs)
        r.case([ex, reqs], n > 1, {"expression": ex, "requirements": reqs})
        r.see("libraries")
        try:
            with common.quiet():
                got = do_eval(ex, {"a": 1}, reqs, None, None, {}, cwlVersion=rng.choice(OLD + NEW), timeout=60)
        except Exception as e:
            r.violation("unexpected-error", expression=ex, requirements=reqs, error=repr(e)[:500])
            continue
        if got != want:
            r.violation("wrong-library", expression=ex, requirements=reqs, got=got, want=want)
        if reqs != before:
            r.violation("inputs-modified", before=before, after=reqs)


def body(c):
    c.add(common.pool_run(libraries, range(scale(16, 200)), limit=200))
    c.need("libraries", 100)
    n = scale(500, 8000)
    items = [(js, s, n if not js else n // 2) for s in range(scale(8, 16)) for js in (False, True)]
    c.add(common.pool_run(chunk, items, limit=scale(200, 3000)))
    c.need("whole references", 2000)
    c.need("interpolations", 2000)
    c.need("malformed", 1500)
    c.need("non-expressions", 1000)


if __name__ == "__main__":
    common.main(C, body)
