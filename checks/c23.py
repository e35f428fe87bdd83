"""C23 engine capabilities: answers with a stand-in engine that reports a version and counts how often it is asked."""
import importlib, os, re, shutil, subprocess, sys, tempfile
import common
from common import scale
from cwl_utils import image_puller, singularity

C = common.Check("C23", "one installed engine (version string, or broken) and a random sequence of capability queries, each case in a fresh "
                 "module state; distinct by version string and queries; non-trivial = the version is readable")
QUERIES = {"is_apptainer_1_or_newer": lambda f, v: f == "apptainer" and v[0] >= 1,
           "is_version_2_6": lambda f, v: f in ("singularity", "singularity-ce") and v[:2] == (2, 6),
           "is_version_3_or_newer": lambda f, v: f == "apptainer" and v[0] >= 1 or v >= (3,),
           "is_version_3_1_or_newer": lambda f, v: f == "apptainer" and v[0] >= 1 or v >= (3, 1),
           "is_version_3_4_or_newer": lambda f, v: f == "apptainer" and v[0] >= 1 or v >= (3, 4)}
FLAVOURS = ["singularity", "singularity", "singularity-ce", "singularity-pro", "apptainer"]
SUFFIX = ["", "", "", "-1.el8", "-dist", "+12-g0123abc", "-rc.1", "-4", "~git", " ", "\n", "-dirty"]
UNREADABLE = ["", "3.8.5", "singularity 3.8.5", "singularity version", "apptainer version dev", "singularity version v3", "version 3.8",
              "singularity version .", "command not found"]


def versions(rng):
    k = rng.random()
    if k < 0.1:
        v = (2, 6) + rng.choice([(), (0,), (1,), (10,), (0, 1)])
    elif k < 0.5:     # around the ones asked for
        major, minor = rng.choice([(2, 5), (2, 6), (2, 7), (2, 60), (2, 16), (3, 0), (3, 1), (3, 3), (3, 4), (3, 5), (3, 10), (3, 11), (3, 40), (4, 0),
                                   (4, 3), (10, 0), (10, 1), (1, 0), (1, 1), (1, 6), (0, 9), (1, 4), (30, 0), (26, 0), (13, 4)])
        rest = rng.choice([(), (0,), (1,), (5,), (10,), (0, 1), (6,), (4, 1)])
        v = (major, minor) + rest
    else:
        v = tuple(rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 26, 31, 100]) for _ in range(rng.choice([2, 3, 3, 4])))
    return v


def script(d, text, status):
    with open(d + "/singularity", "w") as h:
        h.write("#!/bin/sh\necho x >> '%s/asked'\n[ \"$*\" = --version ] || echo \"$*\" >> '%s/other'\n"
                "cat '%s/text'\nexit %d\n" % (d, d, d, status))
    os.chmod(d + "/singularity", 0o755)
    with open(d + "/text", "w") as h:
        h.write(text)


def asked(d):
    if not os.path.exists(d + "/asked"):
        return 0
    with open(d + "/asked") as h:
        return len(h.read().splitlines())


def one(rng, d, r):
    broken = rng.random() < 0.2
    flavour, version = rng.choice(FLAVOURS), versions(rng)
    status, text = 0, "%s version %s%s\n" % (flavour, ".".join(map(str, version)), rng.choice(SUFFIX))
    if broken:
        how = rng.choice(["absent", "status", "unreadable", "unreadable"])
        if how == "status":
            status = rng.choice([1, 127, 255])
        elif how == "unreadable":
            text = rng.choice(UNREADABLE) + "\n"
    else:
        how = "readable"
    script(d, text, status)
    if how == "absent":
        os.remove(d + "/singularity")
    queries = [rng.choice(list(QUERIES) + ["suffix"]) for _ in range(rng.choice([1, 2, 4, 8]))]
    os.environ["PATH"] = d + ":/usr/bin:/bin"
    importlib.reload(singularity)
    importlib.reload(image_puller)
    info = dict(how=how, text=text, status=status, queries=queries)
    r.case([how, text, status, queries], how == "readable", info)
    r.see("engine " + how)
    for q in queries:
        try:
            if q == "suffix":       # what the answers are used for
                got = image_puller.SingularityImagePuller("x", None, "singularity", False).get_image_name()
            else:
                got = getattr(singularity, q)()
        except Exception as e:
            r.see("error")
            known = QUERIES["is_version_2_6"](flavour, version) or QUERIES["is_version_3_or_newer"](flavour, version)
            if how == "readable" and not (q == "suffix" and not known):
                r.violation("readable-version-refused", query=q, error="%s: %s" % (type(e).__name__, e), **info)
            continue
        r.see("answers")
        if how != "readable":
            r.violation("guessed", query=q, got=got, **info)
        elif q == "suffix":
            want = "x.img" if QUERIES["is_version_2_6"](flavour, version) else \
                "x.sif" if QUERIES["is_version_3_or_newer"](flavour, version) else None
            if got != want:
                r.violation("image-suffix", got=got, expected=want, **info)
        else:
            want = bool(QUERIES[q](flavour, version))
            r.see("%s %s" % (q, want))
            if got is not want:
                r.violation("capability", query=q, got=got, expected=want, **info)
    if how == "readable" and asked(d) != 1:
        r.violation("asked-again", times=asked(d), **info)
    if how == "readable":
        v = singularity.get_version()
        if (tuple(v[0]), v[1]) != (version, flavour):
            r.violation("version", got=v, expected=[version, flavour], **info)
    if os.path.exists(d + "/other"):
        r.violation("other-command", **info)


def chunk(k, r):
    rng = C.rng("engine", k)
    for _ in range(25):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(rng, d, r)
        shutil.rmtree(d)


def body(c):
    for q in QUERIES:
        c.need(q + " True", 100)
        c.need(q + " False", 100)
    for h in ("absent", "status", "unreadable"):
        c.need("engine " + h, 50)
    c.need("error", 200)
    c.add(common.pool_run(chunk, range(scale(160, 4000))))


common.main(C, body)
