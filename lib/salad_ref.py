"""Independent reference reader of CWL documents.

Uses schema-salad's own resolver and validator with the CWL metaschema that cwltool ships.  None of
the code under test is involved.
"""
from __future__ import annotations
import copy, json, logging, os
import cwltool
from schema_salad.schema import load_schema, load_and_validate
from schema_salad.exceptions import ValidationException
from schema_salad.ref_resolver import Loader, file_uri
from schema_salad.utils import convert_to_dict

logging.getLogger("salad").setLevel(logging.CRITICAL)
logging.getLogger("rdflib").setLevel(logging.CRITICAL)
VERSIONS = ["v1.0", "v1.1", "v1.2"]
_dir = os.path.join(os.path.dirname(cwltool.__file__), "schemas")
_cache = {}


def schema(version):
    if version not in _cache:
        loader, avsc, md, ml = load_schema(os.path.join(_dir, version, "CommonWorkflowLanguage.yml"))
        _cache[version] = (loader, avsc)
    return _cache[version]


def fresh_loader(version):
    base, avsc = schema(version)
    ld = Loader(base.ctx, schemagraph=base.graph, foreign_properties=base.foreign_properties,
                idx={k: v for k, v in base.idx.items()}, skip_schemas=False)
    return ld, avsc


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    return x


def resolve(path_or_uri, version, strict=True):
    """Resolved, validated document (absolute ids and references, everything desugared)."""
    ld, avsc = fresh_loader(version)
    uri = path_or_uri if "://" in path_or_uri else file_uri(path_or_uri)
    doc, meta = load_and_validate(ld, avsc, uri, strict)
    return plain(doc)


def accepts(path, version, strict=True):
    try:
        resolve(path, version, strict)
        return None
    except ValidationException as e:
        return str(e)


def schema_verdict(path, version):
    """None if the document conforms to the schema (references are not checked), else the complaint."""
    from schema_salad.schema import validate_doc
    ld, avsc = fresh_loader(version)
    try:
        data, _ = ld.resolve_ref(file_uri(path), checklinks=False)
        validate_doc(avsc, data, ld, True)
    except ValidationException as e:
        return str(e) or "invalid"
    return None


def yaml_load(text):
    from schema_salad.utils import yaml_no_ts
    return plain(yaml_no_ts().load(text))
