"""C15 citations: software packages extracted, compared with the resolved document."""
import logging, os, shutil, subprocess, sys, tempfile
import common, gen, objdump, reqdocs, salad_ref
from common import scale
from cwl_utils import cite_extract
from cwl_utils.parser import load_document_by_uri

logging.disable(logging.CRITICAL)
C = common.Check("C15", "one random document with SoftwareRequirement at random places (single, spread, packed, library), extracted "
                 "as a library and as the command; distinct by content; non-trivial = at least one package is named")

SPECS = ["https://packages.debian.org/gromacs", "https://anaconda.org/bioconda/gromacs", "http://identifiers.org/rrid/RRID:SCR_014565",
         "https://bio.tools/tool/x/1.0.0#y", "ex:tool", "https://example.com/é f"]


def package(rng, n):
    p = {"package": n}
    if rng.random() < 0.6:
        p["version"] = [rng.choice(["5", "1.0", "2.4.1-beta", "~1", "v é", "2020-01-01", "1e3"]) for _ in range(rng.choice([0, 1, 2, 3]))]
    if rng.random() < 0.6:
        p["specs"] = [rng.choice(SPECS) for _ in range(rng.choice([1, 1, 2]))]
    return p


def requirement(rng):
    names = rng.sample(["bwa", "samtools", "r-base", "GATK 4", "é", "x:y", "None", "a.b", "0"], rng.choice([0, 1, 1, 2, 4]))
    return {"packages": [package(rng, n) for n in names]}


def expand(specs):
    return [s.replace("ex:", gen.EXT, 1) if s.startswith("ex:") else s for s in specs]


def one(version, rng, g, d, r):
    os.makedirs(d + "/src")
    kinds = []
    real = rng.random() < 0.85      # or a document without any
    try:
        path, want, layout = reqdocs.make(g, rng, version, d + "/src", "SoftwareRequirement", requirement, kinds.append,
                                          None if real else 0, {"ex": gen.EXT})
    except Exception as e:
        r.see("reference_rejected")
        return
    info = dict(version=version, layout=layout, files={
        os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), encoding="utf-8").read()
        for a, _, fs in os.walk(d + "/src") for f in fs if not f.endswith((".ttl", ".bam"))})
    expected = [[(p["package"], p.get("version"), p["specs"] and expand(p["specs"]) if "specs" in p else None) for p in w["packages"]]
                for w in want]
    try:
        with common.quiet():
            top = load_document_by_uri(path)
            got = [[(p.package, p.version, p.specs) for p in q.packages] for q in cite_extract.traverse(top)]
    except Exception as e:
        r.violation("extraction-fails", error="%s: %s" % (type(e).__name__, str(e)[-1200:]), **info)
        return
    plain = lambda x: common.json.loads(common.json.dumps(x))
    expected, got = plain(expected), plain(got)
    r.see("extracted " + layout)
    r.see("requirements", len(want))
    r.see("packages", sum(map(len, expected)))
    for k in kinds:
        r.see(k)
    if not want:
        r.see("nothing to extract")
    r.case(info["files"], any(expected), {"layout": layout, "want": expected[:3]})
    if got != expected:
        r.violation("extraction-differs", expected=expected, got=got, **info)
        return
    lines = ["Package: %s, version: %s, specs: %s" % tuple(p) for w in expected for p in w]
    if rng.random() < 0.08:
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "cwl_utils.cite_extract", path], capture_output=True, text=True)
        status, out = p.returncode, p.stdout
        r.see("command")
    else:
        with common.quiet() as (o, e):
            status = cite_extract.run(cite_extract.arg_parser().parse_args([os.path.relpath(path) if rng.random() < 0.3 else path]))
        out = o.getvalue()
    if status != 0 or out.splitlines() != lines:
        r.violation("output-differs", expected=lines, got=out, status=status, **info)


def chunk(item, r):
    version, k, n = item
    rng = C.rng("cite", version, k)
    g = gen.Gen(rng, version, max_depth=rng.choice([1, 2, 2]), p_opt=rng.choice([0.1, 0.2]))
    for i in range(n):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(version, rng, g, d, r)
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    c.need("packages", 800)
    c.need("nothing to extract", 40)
    c.need("command", 10)
    for k in ("process requirements", "process hints", "step requirements", "step hints"):
        c.need(k, 60)
    for l in ("single", "spread", "packed", "library"):
        c.need("extracted " + l, 60)
    c.add(common.pool_run(chunk, [(v, k, 5) for k in range(scale(50, 1500)) for v in salad_ref.VERSIONS]))


common.main(C, body)
