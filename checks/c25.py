"""C25 where JavaScript runs: the installed Node.js if it is new enough, else a container, else an error."""
import contextlib, json, os, pickle, re, shutil, stat, subprocess, sys, tempfile, threading, traceback
import common
from common import scale
import cwl_utils.sandboxjs as S, cwl_utils.utils as U

C = common.Check("C25", "random installations (Node.js of any version, broken or absent; docker, podman, singularity, udocker as stand-ins that "
                 "refuse what the real ones refuse, with and without the image, failing or not), a few evaluations in each; non-trivial = the local "
                 "Node.js cannot be used; distinct by installation")
NODE = subprocess.check_output(["bash", "-c", "type -P nodejs || type -P node"], text=True).strip()

NODE_SH = r"""#!/bin/bash
D=%(d)s
printf 'node %%s\n' "${1}" >> $D/log
if [ "$1" = -v ]; then echo "$(< $D/version)"; exit 0; fi
if [ -e $D/broken ]; then exit 3; fi
if [ -e $D/garbage ]; then echo oops; exit 0; fi
exec %(node)s "$@"
"""

ENGINE_SH = r"""#!/bin/bash
D=%(d)s; me=%(me)s
line=$me
for a in "$@"; do case "$a" in *$'\n'*) a='<js>';; esac; line="$line $a"; done
printf '%%s | %%s\n' "$line" "$PWD" >> $D/log
fail() { echo "$1" >&2; exit "${2:-125}"; }
cmd=$1; shift
case $me in
docker|podman)
  known() { case "$1" in node:alpine|docker.io/node:alpine|docker.io/library/node:alpine) ;; *) fail "bad name $1";; esac; }
  case $cmd in
  images) [ "$1" = -q ] || fail "unexpected $*"; known "$2"; [ ! -e $D/image ] || echo 1234abcd;;
  pull) case "$1" in -*) fail "unknown flag: $1";; esac; [ ! -e $D/pull-fails ] || fail "cannot pull" 1; known "$1"; touch $D/image; echo sha256:1234;;
  run) in=0
    while case "$1" in -*) true;; *) false;; esac; do
      case "$1" in --attach=STD*|--sig-proxy=true|--rm) ;; --interactive|-i) in=1;; *) fail "unknown flag: $1";; esac; shift; done
    known "$1"; [ -e $D/image ] || { echo "implicit-pull" >> $D/log; [ ! -e $D/pull-fails ] || fail "cannot pull"; }
    [ ! -e $D/run-fails ] || fail "cannot run"
    [ "$2 $3" = "node --eval" ] || fail "unexpected $2 $3"
    shift 2; [ $in = 1 ] || exec < /dev/null; exec %(node)s "$@";;
  *) fail "unknown command $cmd";;
  esac;;
udocker)
  known() { case "$1" in node:alpine|docker.io/library/node:alpine) ;; *) fail "bad name $1";; esac; }
  case $cmd in
  images) echo REPOSITORY; echo "other:1    ."; [ ! -e $D/image ] || echo "docker.io/library/node:alpine    .";;
  pull) case "$1" in -*) fail "Error: this command does not accept option: $1" 1;; esac; [ ! -e $D/pull-fails ] || fail "cannot pull" 1; known "$1"; touch $D/image;;
  run) while case "$1" in -*) true;; *) false;; esac; do shift; done
    known "$1"; [ -e $D/image ] || { echo "implicit-pull" >> $D/log; [ ! -e $D/pull-fails ] || fail "cannot pull"; }
    [ ! -e $D/run-fails ] || fail "cannot run"
    [ "$2 $3" = "node --eval" ] || fail "unexpected $2 $3"
    shift 2; exec %(node)s "$@";;
  *) fail "unknown command $cmd";;
  esac;;
singularity)
  case $cmd in
  --version) echo "singularity-ce version 4.1.0";;
  pull) f=0; if [ "$1" = --force ]; then f=1; shift; fi
    case "$1" in docker://docker.io/node:alpine|docker://node:alpine|docker://docker.io/library/node:alpine) ;; *) fail "bad name $1" 255;; esac
    [ ! -e node_alpine.sif ] || [ $f = 1 ] || fail "FATAL: Image file already exists: \"node_alpine.sif\" - will not overwrite" 255
    [ ! -e $D/pull-fails ] || fail "FATAL: cannot pull" 255
    echo sif > node_alpine.sif;;
  exec) flags=
    while case "$1" in -*) true;; *) false;; esac; do
      case "$1" in --contain|--ipc|--cleanenv|--userns|--pid) flags="$flags $1";; *) fail "unknown flag: $1" 1;; esac; shift; done
    case "$1" in
    *hello.simg) [ -e "$1" ] || fail "FATAL: no image" 255; cat $D/userns >&2; exit 255;;
    docker://*node:alpine) [ ! -e $D/pull-fails ] || fail "cannot pull" 255;;
    *) [ -e "$1" ] || fail "FATAL: could not open image $1" 255;;
    esac
    case "$flags" in *--userns*) [ -e $D/userns-ok ] || fail "FATAL: no user namespaces" 255;; esac
    [ ! -e $D/run-fails ] || fail "cannot run" 255
    [ "$2 $3" = "node --eval" ] || fail "unexpected $2 $3" 255
    shift 2; exec %(node)s "$@";;
  *) fail "unknown command $cmd";;
  esac;;
esac
"""
USERNS = {True: ["FATAL:   \"/bin/sh\" or similar: No valid /bin/sh in container", "ERROR  : /bin/sh doesn't exist in container",
                 "FATAL:   exec: \"true\": executable file not found in $PATH"],
          False: ["ERROR  : Failed to create user namespace: user namespace disabled", "ERROR: could not create userns: Operation not permitted", ""]}
VERSIONS = [("v22.22.2", 1), ("v0.10.26", 1), ("v0.10.25", 0), ("v0.9.99", 0), ("v0.10.100", 1), ("v0.12.0", 1), ("v4.2.6", 1), ("v10.0.0", 1), ("v0.8.30", 0),
            ("v23.0.0-nightly20240601abcdef", 1), ("v20.0.0-rc.1", 1), ("v0.6.21", 0), ("v1.0.0", 1), ("v0.11.0", 1), ("v18.0.0-pre", 1)]
ENGINES = ["docker", "podman", "singularity", "udocker"]
TOOLS = ["bash", "cat", "touch", "sh", "env", "true"]


def script(path, text):
    with open(path, "w") as h:
        h.write(text)
    os.chmod(path, 0o755)


def fresh(f, *args):
    """f(*args) in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                with common.quiet():
                    v = ("ok", f(*args))
            except BaseException:
                v = ("bad", traceback.format_exc())
            with os.fdopen(wr, "wb") as h:
                pickle.dump((v, common.LINES), h)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        v, lines = pickle.load(h)
    os.waitpid(pid, 0)
    common.LINES.update(lines)
    return v


def evaluate(steps, env, cwd, engine):
    """Evaluations one after the other, by one JSEngine; each in a thread of its own or not."""
    for k in ("CWL_SINGULARITY_CACHE",):
        os.environ.pop(k, None)
    os.environ.update(env)
    os.chdir(cwd)
    e = S.NodeJSEngine()
    S.set_js_engine(e)
    out = []
    for s in steps:
        for f in s.get("touch", []):
            open(f, "w").close()
        for f in s.get("remove", []):
            with contextlib.suppress(FileNotFoundError):
                os.remove(f)

        def run():
            try:
                got.append(["value", e.eval(s["ex"], s.get("lib", ""), timeout=100, container_engine=engine, force_docker_pull=s["force"],
                                            js_console=s.get("console", False))])
            except S.JavascriptException as x:
                got.append(["JavascriptException", str(x)[:300]])
            except BaseException as x:
                got.append([type(x).__name__, traceback.format_exc()[-700:]])
        got = []
        n = len(open(env["LOG"]).read().splitlines())
        if s["thread"]:
            t = threading.Thread(target=run)
            t.start()
            t.join()
        else:
            run()
        out.append((got[0], open(env["LOG"]).read().splitlines()[n:]))
    return out


def one(rng, d, r):
    b = d + "/bin"
    os.makedirs(b)
    for t in TOOLS:
        os.symlink(shutil.which(t), b + "/" + t)
    sub = dict(d=d, node=NODE)
    node = rng.choice(["absent", "absent", "ok", "ok", "old", "broken", "garbage", "good"])
    version = "v22.22.2"
    if node in ("ok", "old", "good"):
        version, new = rng.choice([v for v in VERSIONS if node == "good" or v[1] == (node == "ok")])
        node = "ok" if new else "old"
    with open(d + "/version", "w") as h:
        h.write(version)
    if node != "absent":
        name = rng.choice(["node", "node", "nodejs"])
        script(b + "/" + name, NODE_SH % sub)
        if node in ("broken", "garbage"):
            open(d + "/" + node, "w").close()
    engine = rng.choice(ENGINES + ["docker", "singularity"])
    installed = [x for x in ENGINES if (rng.random() < 0.8 if x == engine else rng.random() < 0.3)]
    for x in installed:
        script(b + "/" + x, ENGINE_SH % dict(sub, me=x))
    env = {"PATH": b, "LOG": d + "/log"}
    open(d + "/log", "w").close()
    cwd = d + "/cwd"
    os.makedirs(cwd)
    place = cwd
    if rng.random() < 0.5:
        place = d + "/cache dir"
        os.makedirs(place)
        env["CWL_SINGULARITY_CACHE"] = place
    image = rng.random() < 0.5
    if image:
        open(d + "/image" if engine != "singularity" else place + "/node_alpine.sif", "w").close()
    fails = [x for x in ("pull-fails", "run-fails") if rng.random() < 0.15]
    for x in fails:
        open(d + "/" + x, "w").close()
    ok = rng.random() < 0.5
    with open(d + "/userns", "w") as h:
        h.write(rng.choice(USERNS[ok]))
    if ok:
        open(d + "/userns-ok", "w").close()
    v = rng.choice([7, "é日", [1, None], {"a": 1.5}, True])
    steps = []
    for i in range(rng.choice([1, 2, 3])):
        w = [v, i]
        steps.append({"ex": "(%s)" % json.dumps(w), "want": w, "thread": rng.random() < 0.6, "force": rng.random() < 0.15, "console": rng.random() < 0.2})
    local = node == "ok"
    info = dict(node=node, version=version, engine=engine, installed=installed, image=image, fails=fails, userns=ok, cache=place != cwd, steps=steps)
    r.case(info, not local, info)
    st, out = fresh(evaluate, steps, env, cwd, engine)
    if st == "bad":
        return r.inconclusive(out)
    judge(info, steps, out, local, engine in installed, engine, image, fails, ok, place, cwd, d, r)


def judge(info, steps, out, local, there, engine, image, fails, userns, place, cwd, d, r):
    info = dict(info, log=[o[1] for o in out], results=[o[0] for o in out])
    present, pulls, alive, started = image, 0, set(), False
    if not local:
        r.see("not local: " + info["node"])
    for i, (s, (got, log)) in enumerate(zip(steps, out)):
        r.see("evaluations")
        cmds = [l for l in log if not l.startswith("node ") and l != "implicit-pull"]
        where = [l for l in cmds if "<js>" in l]
        pull = [l for l in cmds if l.split()[1] == "pull"]
        if "implicit-pull" in log:
            r.violation("run-without-image", step=i, **info)
        if any(l.split()[0] != engine for l in cmds):
            r.violation("other-engine", step=i, **info)
        key = (i if s["thread"] else None, s["console"])
        if key in alive:       # an engine process of this thread that still runs
            if log:
                r.violation("engine-not-reused", step=i, **info)
            want = True
        elif local:
            if cmds:
                r.violation("container-although-node-is-there", step=i, **info)
            want = True
            r.see("local")
        elif not there:
            want = False
            r.see("nothing to run")
        else:
            first = not pulls and not started
            need = first and (not present or s["force"])
            if s["force"] and not first:
                want = True if "pull-fails" not in fails else None      # whether images already in use are pulled again is not specified
            elif need:
                want = "pull-fails" not in fails
                if want and len(pull) != 1:
                    r.violation("pulls", step=i, n=len(pull), **info)
                r.see("pull needed")
            else:
                if pull:
                    r.violation("needless-pull", step=i, **info)
                r.see("image there")
                # with the image known singularity may still name the registry
                want = True if engine != "singularity" or "pull-fails" not in fails or (image and i == 0) else None
            if pull and want and engine == "singularity":
                if not os.path.exists(place + "/node_alpine.sif"):
                    r.violation("image-elsewhere", step=i, **info)
            if "run-fails" in fails and want:
                want = False
            if want:
                if len(where) != 1:
                    r.violation("runs", step=i, **info)
                elif engine == "singularity" and ("--userns" in where[0]) != userns:
                    r.violation("user-namespaces", step=i, **info)
                r.see("in " + engine)
            if want and need:
                pulls += 1
            if want:
                started = True
        if want:
            if got != ["value", s["want"]]:
                r.violation("wrong-or-no-value", step=i, **info)
                return
            alive.add(key)
        elif want is False:
            r.see("error expected")
            if got[0] != "JavascriptException":
                r.violation("no-error" if got[0] == "value" else "other-error", step=i, **info)
                return
        else:
            return
        if s["force"] and not want and want is not None:
            return      # what is known of the image after a failed pull is not specified
        if want is False:
            return


def chunk(k, r):
    rng = C.rng("c", k)
    for _ in range(6):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(rng, d, r)
        shutil.rmtree(d)


def body(c):
    for n, m in (("local", 40), ("nothing to run", 15), ("pull needed", 40), ("image there", 40), ("error expected", 30),
                 ("not local: absent", 20), ("not local: old", 10), ("not local: broken", 10), ("not local: garbage", 10)):
        c.need(n, m)
    for e in ENGINES:
        c.need("in " + e, 10)
    c.add(common.pool_run(chunk, range(scale(60, 1500))))


common.main(C, body)
