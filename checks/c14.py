"""C14 images: extraction compared with the resolved document; pulling watched through stand-in engines."""
import argparse, json, logging, os, shutil, subprocess, sys, tempfile
import common, gen, reqdocs, salad_ref
from common import scale
from cwl_utils import docker_extract, image_puller
from cwl_utils.parser import load_document_by_uri

logging.disable(logging.CRITICAL)
C = common.Check("C14", "one random document with container requirements at random places (single, spread, packed, library), "
                 "extracted and saved with stand-in engines that log what they are asked; distinct by content; non-trivial = at "
                 "least one image is named")

ENGINE = r"""#!/bin/sh
# Stand-in for a container engine: logs its arguments, keeps its images in a directory, fails when told to.
S="$VERIF_ENGINE_STATE"
name=${0##*/}; VERIF_COMMAND=$1
case "$1" in --version) echo "${VERIF_ENGINE_VERSION:-singularity-ce version 3.11.4}"; echo version >> "$S/versions"; exit 0;; esac
{ printf '%s' "$name"; for a in "$@"; do printf '\t%s' "$a"; done; printf '\n'; } >> "$S/log"
fail() {  # status, message
  case "$VERIF_ENGINE_MANNER" in
    silent) exit "$1";; killed) kill -9 $$;; bytes) [ "$VERIF_COMMAND" = save ] || printf '\351\377 %s\n' "$2"; exit "$1";;
    stderr) echo "$2" >&2; exit "$1";; *) [ "$VERIF_COMMAND" = save ] || echo "$2"; exit "$1";;
  esac
}
[ "$VERIF_ENGINE_MANNER:$1" = bytes:pull ] && printf '\351\377\r\n'
has() { [ -f "$S/$1" ] && grep -qxF -- "$2" "$S/$1"; }
case "$name:$1" in
  *singularity:pull|*apptainer:pull)
    shift; force=; [ "$1" = --force ] && { force=1; shift; }
    [ "$1" = --name ] || { echo "bad arguments" >&2; exit 64; }
    target=$2; img=${3#docker://}
    has fail "$img" && fail 255 "cannot pull $img"
    [ -e "$target" ] && [ -z "$force" ] && fail 255 "Image file already exists"
    printf '%s' "$img" > "$target" ;;
  *:pull) has fail "$2" && fail 1 "cannot pull $2"
    printf '%s\n' "$2" >> "$S/images" ;;
  *:save)
    [ "$2" = -o ] || exit 64
    has failsave "$4" && fail 125 "cannot save $4"
    has images "$4" || { echo "no such image $4" >&2; exit 125; }
    [ -e "$3" ] && [ "$name" = podman ] && { echo "$3 exists" >&2; exit 125; }
    printf '%s' "$4" > "$3" ;;
  *) exit 64 ;;
esac
"""
BIN = os.path.join(C.scratch, "bin")
os.mkdir(BIN)
for n in ("docker", "podman", "my-engine", "singularity", "apptainer"):
    with open(os.path.join(BIN, n), "w") as h:
        h.write(ENGINE)
    os.chmod(h.name, 0o755)
PATH = BIN + ":" + os.environ["PATH"]

REGISTRY = ["", "", "quay.io/", "localhost:5000/", "reg.example.org:443/", "192.168.0.1:80/"]
TAG = ["", "", ":latest", ":1.2", ":v1.0.3-rc_1", ":3", "@sha256:" + "0f" * 32, ":2@sha256:" + "ab" * 32]


def image(rng, used=None):
    while True:
        n = rng.choice(["debian", "a", "my.tool", "x-y", "bwa", "img%d" % rng.randrange(10)])
        i = rng.choice(REGISTRY) + rng.choice(["", "", "library/", "org/team/", "a/"]) + n + rng.choice(TAG)
        return i


def normalised(i):
    if "@" in i or ":" in i.rsplit("/", 1)[-1]:
        return i
    return i + ":latest"


def requirement(pool):
    def new(rng):
        out = {}
        if rng.random() < 0.9:
            out["dockerPull"] = rng.choice(pool)
        for k, v in (("dockerImageId", "img:%d" % rng.randrange(9)), ("dockerLoad", "a/b.tar"), ("dockerFile", "FROM a\nRUN b: c\n"),
                     ("dockerImport", "x.tgz"), ("dockerOutputDirectory", "/out/x")):
            if rng.random() < (0.15 if "dockerPull" in out else 0.4):
                out[k] = v
        return out
    return new


FIELDS = ("dockerPull", "dockerLoad", "dockerFile", "dockerImport", "dockerImageId", "dockerOutputDirectory")


def collide(a, b):
    """Images whose file has the same name (a listed finding)."""
    return any(f(a) == f(b) for f in (lambda i: i.replace("/", "").replace(":", "_"), lambda i: i.replace("/", "_").replace(":", "_")))


def images(rng):
    pool = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        i = image(rng)
        if not any(collide(normalised(i), normalised(j)) and normalised(i) != normalised(j) for j in pool):
            pool.append(i)
    if rng.random() < 0.3:      # with and without the tag that is the default
        for i in list(pool):
            pool.append(normalised(i))
    return pool


def contents(d):
    out = {}
    for f in os.listdir(d) if os.path.isdir(d) else []:
        with open(os.path.join(d, f)) as h:
            out[f] = h.read()
    return out


def outside(d, skip):
    return sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if not a.startswith(skip))


def save(rng, path, want, d, r, info):
    """Extract with a stand-in engine, and look at its log and the files."""
    state, dest = d + "/engine", d + "/images"
    shutil.rmtree(state, ignore_errors=True)
    os.makedirs(state)
    shutil.rmtree(dest, ignore_errors=True)
    pulls = []
    for w in want:
        i = w.get("dockerPull") and normalised(w["dockerPull"])
        if i and i not in pulls:
            pulls.append(i)
    engine = rng.choice(["docker", "podman", "my-engine", "singularity", "singularity", "apptainer"])
    sing = engine in ("singularity", "apptainer")
    todir = sing or rng.random() < 0.85
    force = rng.random() < 0.4
    cli = rng.random() < 0.15
    version = rng.choice(["singularity version 2.6.1-dist", "singularity-ce version 3.11.4", "apptainer version 1.2.0",
                          "singularity version 3.8.7"]) if cli else "singularity-ce version 3.11.4"
    fails = [i for i in pulls if rng.random() < 0.2] if rng.random() < 0.3 else []
    failsave = [i for i in pulls if rng.random() < 0.2] if rng.random() < 0.3 and not sing else []
    missing = rng.random() < 0.05
    with open(state + "/fail", "w") as h:
        h.writelines(i + "\n" for i in fails)
    with open(state + "/failsave", "w") as h:
        h.writelines(i + "\n" for i in failsave)
    args = [path] + (["--dir", dest] if todir else []) + (["--singularity"] if sing else []) + (["--force-download"] if force else [])
    if engine not in ("docker", "singularity") or rng.random() < 0.3 or missing:
        args += ["--container-engine", "verif-no-such-engine" if missing else engine]
    ext = ".tar" if not sing else (".img" if "2.6" in version else ".sif")
    present = {}
    env = dict(os.environ, PATH=PATH, VERIF_ENGINE_STATE=state, VERIF_ENGINE_VERSION=version,
               VERIF_ENGINE_MANNER=rng.choice(["", "", "silent", "silent", "killed", "bytes", "stderr"]))

    def go():
        if cli:
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "cwl_utils.docker_extract"] + args, env=env,
                               capture_output=True, text=True)
            return None if p.returncode == 0 else "exit %d: %s" % (p.returncode, p.stderr[-300:])
        old = dict(os.environ)
        os.environ.update(env)
        try:
            with common.quiet() as (out, err):
                docker_extract.run(docker_extract.arg_parser().parse_args(args))
            return None
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
        except SystemExit as e:
            return None if e.code in (0, None) else "exit %s" % e.code
        finally:
            os.environ.clear()
            os.environ.update(old)
    if todir and rng.random() < 0.4 and pulls and not missing:      # an earlier run
        fails_now, failsave_now = open(state + "/fail").read(), open(state + "/failsave").read()
        open(state + "/fail", "w").close()
        open(state + "/failsave", "w").close()
        with_force, args = args, [a for a in args if a != "--force-download"]
        err = go()
        args = with_force
        if err:
            r.violation("first-run-fails", engine=engine, args=args, error=err, **info)
            return
        present = contents(dest)
        for f in list(present):
            if rng.random() < 0.3:
                os.remove(os.path.join(dest, f))
                del present[f]
            else:
                with open(os.path.join(dest, f), "w") as h:
                    h.write("old " + present[f])
                present[f] = "old " + present[f]
        os.remove(state + "/log")
        if os.path.exists(state + "/images"):
            os.remove(state + "/images")
        for n, x in (("fail", fails_now), ("failsave", failsave_now)):
            with open(state + "/" + n, "w") as h:
                h.write(x)
        r.see("with files of an earlier run")
    src_before = outside(d, (dest, state))
    error = go()
    info = dict(info, engine=engine, args=args, force=force, fails=fails, failsave=failsave, present=present, error=error,
                version=version, manner=env["VERIF_ENGINE_MANNER"])
    log = []
    if os.path.exists(state + "/log"):
        with open(state + "/log") as h:
            log = [x.rstrip("\n").split("\t") for x in h]
    info["log"] = log
    now = contents(dest) if todir else {}
    info["now"] = now
    r.see("saved by " + engine)
    r.see("commands", len(log))
    if outside(d, (dest, state)) != src_before:
        r.violation("files-outside", **info)
    if missing:
        r.see("engine missing")
        cached = sing and not force and all(any(v == "old " + i for v in present.values()) for i in pulls)
        if pulls and not cached and not error:
            r.violation("missing-engine-unreported", **info)
        return
    old = {v[4:]: f for f, v in present.items()}
    # what should have been asked, image by image, up to the first failure
    expect, stop, files = [], False, {}
    for i in pulls:
        if sing:
            if i in old and not force:
                files[i] = "old " + i
                continue
            expect.append(("pull", i))
            stop = i in fails
            if not stop:
                files[i] = i
        else:
            expect.append(("pull", i))
            stop = i in fails
            if not stop and todir:
                expect.append(("save", i))
                if engine == "podman" and i in old and not force:
                    stop = True
                else:
                    stop = i in failsave
                if not stop:
                    files[i] = i
        if stop:
            break
    got = []
    for cmd in log:
        if cmd[0] != engine:
            r.violation("other-engine", **info)
            return
        if sing:
            ok = cmd[1] == "pull" and cmd[-3] == "--name" and cmd[-1].startswith("docker://") and \
                cmd[2:-3] == (["--force"] if force else [])
            i = cmd[-1][9:]
            target = cmd[-2]
        elif cmd[1] == "pull":
            ok, i, target = len(cmd) == 3, cmd[-1], None
        else:
            ok, i, target = cmd[1:3] == ["save", "-o"] and len(cmd) == 5, cmd[-1], cmd[3]
        if not ok:
            r.violation("command-arguments", command=cmd, **info)
            return
        if target is not None and (os.path.dirname(os.path.abspath(target)) != dest or not target.endswith(ext)):
            r.violation("image-file-place", command=cmd, **info)
            return
        got.append((cmd[1], i))
    if got != expect:
        r.violation("commands", expected=expect, got=got, **info)
        return
    if bool(error) != stop:
        r.violation("failure-unreported" if stop else "failure-reported-wrongly", **info)
        return
    if stop:
        r.see("engine failures")
        r.see("engine failures: " + (env["VERIF_ENGINE_MANNER"] or "told"))
        bad = expect[-1][1]
        if any(v in (bad,) for v in now.values()):
            r.violation("failed-image-claimed", image=bad, **info)
    if todir:
        for i, c in files.items():
            r.see("image files")
            if c not in now.values():
                r.violation("image-file-missing", image=i, expected=c, **info)
                return
        if not stop and len(now) != len(set(files) | set(old)):
            r.violation("image-file-count", **info)


def one(version, rng, g, d, r):
    pool = images(rng)
    os.makedirs(d + "/src")
    try:
        path, want, layout = reqdocs.make(g, rng, version, d + "/src", "DockerRequirement", requirement(pool), lambda k: None)
    except Exception as e:
        r.see("reference_rejected")
        return
    info = dict(version_=version, layout=layout, files={
        os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), encoding="utf-8").read()
        for a, _, fs in os.walk(d + "/src") for f in fs if not f.endswith((".ttl", ".bam"))})
    try:
        with common.quiet():
            top = load_document_by_uri(path)
    except Exception as e:
        r.violation("not-loadable", error=str(e)[-800:], **info)
        return
    with common.quiet():
        got = [{k: getattr(q, k) for k in FIELDS if getattr(q, k) is not None} for q in docker_extract.traverse(top)]
    expected = [{k: normalised(w[k]) if k == "dockerPull" else w[k] for k in FIELDS if k in w} for w in want]
    r.see("extracted " + layout)
    r.see("requirements", len(want))
    r.case(info["files"], bool(pool and want), {"layout": layout, "want": expected[:4]})
    if got != expected:
        r.violation("extraction-differs", expected=expected, got=got, **info)
        return
    save(rng, path, want, d, r, info)


def chunk(item, r):
    version, k, n = item
    rng = C.rng("images", version, k)
    g = gen.Gen(rng, version, max_depth=rng.choice([1, 2, 2]), p_opt=rng.choice([0.1, 0.2]))
    for i in range(n):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(version, rng, g, d, r)
        shutil.rmtree(d, ignore_errors=True)


def probes(item, r):
    """The listed findings: two images, one file."""
    engine, a, b = item
    d = tempfile.mkdtemp(dir=C.scratch)
    os.makedirs(d + "/engine")
    wf = {"cwlVersion": "v1.2", "class": "Workflow", "inputs": [], "outputs": [], "steps": [
        {"id": "s%d" % i, "in": [], "out": [], "run": {
            "class": "CommandLineTool", "baseCommand": "x", "inputs": [], "outputs": [],
            "hints": [{"class": "DockerRequirement", "dockerPull": x}]}} for i, x in enumerate((a, b))]}
    path = reqdocs.write(d, "main.cwl", json.dumps(wf), None)
    os.environ.update(PATH=PATH, VERIF_ENGINE_STATE=d + "/engine")
    with common.quiet():
        docker_extract.run(docker_extract.arg_parser().parse_args(
            ["--dir", d + "/images", path] + (["--singularity"] if engine == "singularity" else [])))
    r.see("probe of a finding")
    if sorted(contents(d + "/images").values()) != sorted([a, b]):
        r.violation(engine + "-image-file-collision", images=[a, b], files=contents(d + "/images"))
    shutil.rmtree(d)


def body(c):
    c.need("requirements", 600)
    c.need("commands", 500)
    c.need("image files", 200)
    c.need("engine failures", 40)
    for m in ("silent", "killed", "told"):
        c.need("engine failures: " + m, 3)
    c.need("with files of an earlier run", 60)
    for l in ("single", "spread", "packed", "library"):
        c.need("extracted " + l, 60)
    c.add(common.pool_run(probes, [("docker", "org/tool:1", "orgtool:1"), ("singularity", "a/b:1", "a_b:1")]))
    c.add(common.pool_run(chunk, [(v, k, 5) for k in range(scale(50, 1500)) for v in salad_ref.VERSIONS]))


common.main(C, body)
