"""Plain view of loaded CWL objects through their public attributes."""
from __future__ import annotations
import re

PYNAME = {"class": ("class_",), "in": ("in_",), "type": ("type_", "type")}


def is_cwl_object(x):
    return hasattr(x, "loadingOptions") and hasattr(x, "attrs")


def getfield(o, f):
    for cand in (f, f + "_"):
        if hasattr(o, cand):
            v = getattr(o, cand)
            if not callable(v):
                return v
    return None


def dump(x):
    """None-valued fields are left out of objects (absent and null mean the same there)."""
    if is_cwl_object(x):
        out = {}
        for f in sorted(x.attrs):
            v = getfield(x, f)
            if v is not None:
                out[f] = dump(v)
        for k, v in (getattr(x, "extension_fields", None) or {}).items():
            out[str(k)] = dump(v)
        return out
    if isinstance(x, dict):
        return {str(k): dump(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [dump(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    if isinstance(x, str):
        return str(x)
    return repr(x)


ANON = re.compile(r"_:[0-9a-fA-F-]{8,}")
OPAQUE = {"default"}


def canon(x, base, ns=None, opaque=False, inst=None):
    """Canonical comparable form: anonymous ids dropped, namespace prefixes expanded, nulls dropped,
    ids relative to `base` made short only for readability."""
    ns = ns or {}
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if v is None and not opaque:
                continue
            if k in ("id", "name") and isinstance(v, str) and ANON.search(v) and not opaque:
                continue
            kk = k
            if ":" in k and k.split(":", 1)[0] in ns:
                kk = ns[k.split(":", 1)[0]] + k.split(":", 1)[1]
            if k == "class" and isinstance(v, str) and v.split(":", 1)[0] in ns:
                v = ns[v.split(":", 1)[0]] + v.split(":", 1)[1]
            if k == "secondaryFiles" and isinstance(v, dict) and not opaque:
                v = [v]
            out[kk] = canon(v, base, ns, opaque or k in OPAQUE or ":" in k)
        return out
    if isinstance(x, list):
        return [canon(v, base, ns, opaque) for v in x]
    return x


def diff(a, b, path=""):
    """First few differences between two canonical values (types matter: 0 is not False)."""
    out = []
    _diff(a, b, path, out)
    return out


def _diff(a, b, path, out):
    if len(out) > 6:
        return
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append("%s/%s: only right: %r" % (path, k, b[k]))
            elif k not in b:
                out.append("%s/%s: only left: %r" % (path, k, a[k]))
            else:
                _diff(a[k], b[k], path + "/" + k, out)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append("%s: lengths %d vs %d: %r | %r" % (path, len(a), len(b), a, b))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            _diff(x, y, "%s[%d]" % (path, i), out)
    else:
        if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))
                                           and not isinstance(a, bool) and not isinstance(b, bool)):
            out.append("%s: %r (%s) vs %r (%s)" % (path, a, type(a).__name__, b, type(b).__name__))
        elif a != b:
            out.append("%s: %r vs %r" % (path, a, b))
