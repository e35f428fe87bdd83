"""C27 failures of the commands: document trees with one injected fault, every command run on them as a process of its own."""
import json, os, shutil, subprocess, sys, tempfile
import common, gen
from common import scale

C = common.Check("C27", "one command run on a tree of CWL documents of which one file is damaged (missing, a directory, a dangling link, cut off, "
                 "not YAML, not text, empty, a list, of an unsupported version, without version or class, invalid), or with an output it "
                 "cannot write; the sound tree is run, too; distinct by tree, command and fault; non-trivial = a fault was injected")
COMMANDS = ["cite_extract", "docker_extract", "pack_cli", "inputs_schema_gen", "expression_refactor", "normalizer", "graph_split"]
STUB = """#!/bin/bash
if [ "$1" = save ]; then while [ "$1" != -o ] && [ $# -gt 0 ]; do shift; done; echo image > "$2"; fi
exit 0
"""
BIN = os.path.join(C.scratch, "bin")
os.makedirs(BIN)
with open(BIN + "/docker", "w") as h:
    h.write(STUB)
os.chmod(BIN + "/docker", 0o755)


def tool(rng, version, name, files, where):
    reqs = {"DockerRequirement": {"dockerPull": "img/%s:1" % name}}
    hints = {"SoftwareRequirement": {"packages": {"p" + name: {"version": ["1"]}}}}
    t = {"cwlVersion": version, "class": "CommandLineTool", "requirements": reqs, "hints": hints, "baseCommand": "echo",
         "inputs": {"x": {"type": "string?", "doc": "d"}}, "outputs": {"o": "stdout"}}
    if rng.random() < 0.5:
        t["requirements"]["InlineJavascriptRequirement"] = {}
        t["arguments"] = ["$(inputs.x + 1)"]
    part = None
    k = rng.random()
    if k < 0.3:
        part = "req-%s.yml" % name
        t["requirements"] = [{"class": c, **v} for c, v in t["requirements"].items() if c != "DockerRequirement"] + [{"$import": part}]
        files[where + part] = {"class": "DockerRequirement", "dockerPull": "img/%s:1" % name}
    elif k < 0.45:
        part = "in-%s.json" % name
        t["inputs"] = {"x": {"$import": part}}
        files[where + part] = {"type": "string?", "doc": "d"}
    return t, where + part if part else None


def tree(rng, version):
    """(files, main, process files below main, parts of main, parts below)."""
    files, deep, parts = {}, [], {}
    n = [0]

    def process(level, where, main):
        n[0] += 1
        name = "main" if main else "p%d" % n[0]
        path = where + name + ".cwl"
        if not level:
            doc, part = tool(rng, version, name, files, where)
            if part:
                parts[part] = main
        else:
            doc = {"cwlVersion": version, "class": "Workflow", "requirements": {"SubworkflowFeatureRequirement": {}}, "inputs": {"x": "string?"},
                   "outputs": {}, "steps": {}}
            for i in range(rng.choice([1, 2, 3])):
                sub = rng.choice(["", "sub/", "a b/"])
                f = process(level - 1 if not i else 0, where + sub, False)
                deep.append(f)
                doc["steps"]["s%d" % i] = {"in": {"x": "x"}, "out": [], "run": sub.replace(" ", "%20") + os.path.basename(f)}
        files[path] = doc
        return path
    main = process(rng.choice([0, 1, 1, 2]), "", True)
    return files, main, deep, parts


def packed(rng, version):
    t, _ = tool(rng, version, "t", {}, "")
    t.pop("cwlVersion")
    t["requirements"] = [r for r in t["requirements"] if "$import" not in r] if isinstance(t["requirements"], list) else t["requirements"]
    t["inputs"] = {"x": "string?"}
    return {"cwlVersion": version, "$graph": [{"id": "t", **t}, {"id": "main", "class": "Workflow", "inputs": {"x": "string?"}, "outputs": {},
            "steps": {"s": {"in": {"x": "x"}, "out": [], "run": "#t"}}}]}


FILE_FAULTS = ["missing", "directory", "dangling", "cut", "garbled", "binary"]
FORM_FAULTS = ["empty", "list", "text"]
CWL_FAULTS = ["unknown field", "no outputs", "unknown class", "wrong type", "version", "no version"]


def damage(rng, path, fault):
    if fault in FILE_FAULTS[:3]:
        os.remove(path)
        if fault == "directory":
            os.mkdir(path)
        elif fault == "dangling":
            os.symlink("nowhere", path)
        return
    with open(path, encoding="utf-8") as h:
        text = h.read()
    data = None
    if fault == "cut":
        text = text.rstrip()[:-rng.choice([1, 2, 5])] if text.lstrip().startswith("{") else text + "\nmore: [1, {"
    elif fault == "garbled":
        text = rng.choice(["{" + text, text + "\n}", "a: b: c\n" + text, "\t- x\n" + text, "&a *b\n" + text])
    elif fault == "binary":
        data = text.encode() + b"\n# \xff\xfe\n" if rng.random() < 0.5 else b"\x00\x80" + text.encode()
    elif fault == "empty":
        text = rng.choice(["", "\n", "# nothing\n", "---\n"])
    elif fault == "list":
        text = "- 1\n- x\n"
    elif fault == "text":
        text = "just text\n"
    else:
        d = json.loads(text)
        if fault == "unknown field":
            d["no_such_field"] = 1
        elif fault == "no outputs":
            del d["outputs"]
        elif fault == "unknown class":
            d["class"] = "CommandlineTool"
        elif fault == "wrong type":
            d["inputs"]["y"] = {"type": rng.choice([5, True, {"type": "arr", "items": "int"}, {"type": "record", "fields": 3}])}
        elif fault == "version":
            d["cwlVersion"] = rng.choice(["v9", "v1.3", "1.2", "v1.2.1", "draft-2"])
        elif fault == "no version":
            del d["cwlVersion"]
        text = json.dumps(d)
    with open(path, "wb") as h:
        h.write(text.encode() if data is None else data)


def must_fail(cmd, where, fault):
    """Whether the command cannot do its work; None: not judged."""
    if cmd == "normalizer" and fault == "no outputs":
        return None             # packing takes missing lists as empty
    if cmd == "graph_split":
        return True if fault in FILE_FAULTS else None
    if where == "part of main":
        return True if fault in FILE_FAULTS[:6] else None
    if where in ("below", "part below"):
        if cmd == "inputs_schema_gen":
            return None         # needs the inputs of the top process only
        if fault in FILE_FAULTS:
            return True
        if where == "part below" or cmd == "pack_cli":
            return None
        if fault in ("version", "no version"):
            return None         # (packing gives them the version of the whole)
        return True
    if cmd == "pack_cli":
        return True if fault in FILE_FAULTS or fault in ("empty", "no version") else None
    return True


def run(cmd, args, cwd, stdout=None):
    env = dict(os.environ, PATH=BIN + ":" + os.environ["PATH"])
    if stdout:
        with open(stdout, "w") as h:
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "cwl_utils." + cmd, *args], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                               stdout=h, stderr=subprocess.PIPE)
        return p.returncode, "", p.stderr.decode(errors="replace")
    # the way the installed scripts run: sys.exit(main())
    code = "import sys; from cwl_utils.%s import main; sys.argv[0] = 'cwl'; sys.exit(main())" % cmd
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, *args], cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def one(rng, d, r):
    version = rng.choice(["v1.0", "v1.1", "v1.2"])
    cmd = rng.choice(COMMANDS)
    src, out = os.path.join(d, "src"), os.path.join(d, "out")
    os.makedirs(src)
    if cmd == "graph_split":
        files, main, deep, parts = {"main.cwl": packed(rng, version)}, "main.cwl", [], {}
    else:
        files, main, deep, parts = tree(rng, version)
    for f, x in files.items():
        p = os.path.join(src, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as h:
            h.write(json.dumps(x, indent=rng.choice([None, 1])))
    k = rng.random()
    fault = where = None
    if k < 0.12:
        where = "none"
    elif k < 0.3:
        where, fault = "output", rng.choice(["full", "file", "no parent"])
    else:
        where, path = rng.choice([("main", main)] + [("below", f) for f in deep] * 2 +
                                 [("part of main" if m else "part below", f) for f, m in parts.items()] * 3)
        fault = rng.choice(FILE_FAULTS + (FORM_FAULTS + CWL_FAULTS if where in ("main", "below") else []))
        if not must_fail(cmd, where, fault):
            r.see("not judged")
            return
        if fault in CWL_FAULTS and cmd == "graph_split":
            return
        damage(rng, os.path.join(src, path), fault)
    target = os.path.join(out, "x")
    os.makedirs(out)
    doc = os.path.join(src, main) if rng.random() < 0.6 else os.path.join("src", main)
    stdout = None
    if where == "output":
        if cmd in ("pack_cli", "inputs_schema_gen", "cite_extract") and fault == "full":
            stdout = "/dev/full"
        elif cmd in ("cite_extract", "docker_extract"):
            return
        elif fault == "full":
            if cmd in ("expression_refactor", "normalizer"):
                os.makedirs(target)
                os.symlink("/dev/full", os.path.join(target, os.path.basename(main)))
            else:
                os.makedirs(target)
                os.symlink("/dev/full", os.path.join(target, "unpacked_main.cwl"))
        elif fault == "file":
            if cmd in ("pack_cli", "inputs_schema_gen"):
                os.makedirs(target)     # a directory where the file should be
            else:
                with open(target, "w") as h:
                    h.write("a file\n")
        else:
            target = os.path.join(out, "no/such/x")
    if where != "output" and cmd in ("expression_refactor", "normalizer"):
        os.makedirs(target)
    tofile = cmd in ("pack_cli", "inputs_schema_gen") and not stdout and (where == "output" or rng.random() < 0.4)
    args = {"cite_extract": [doc], "docker_extract": ["--dir", out, doc],
            "pack_cli": (["-o", target] if tofile else []) + [doc],
            "inputs_schema_gen": (["-o", target] if tofile else []) + [doc],
            "expression_refactor": [target, doc], "normalizer": [target, doc], "graph_split": ["-C", target, doc]}[cmd]
    rc, o, err = run(cmd, args, d, stdout)
    made = []
    for root, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(root, f)
            if not os.path.islink(p) and os.path.getsize(p):
                with open(p, errors="replace") as h:
                    if h.read() != "a file\n":
                        made.append(os.path.relpath(p, out))
    info = dict(command=cmd, where=where, fault=fault, files={f: json.dumps(x)[:1500] for f, x in files.items()}, args=args, status=rc,
                stdout=o[-600:], stderr=err[-900:], made=made)
    r.case([files, cmd, where, fault, tofile], where != "none", {"command": cmd, "fault": fault, "where": where, "status": rc})
    r.see("command " + cmd)
    if where == "none":
        r.see("sound")
        if rc not in ((0, 7) if cmd == "expression_refactor" else (0,)):
            r.violation("sound-document-fails", **info)
        elif rc == 0 and not o.strip() and not made:
            r.violation("success-without-result", **info)
        elif cmd in ("pack_cli", "inputs_schema_gen"):
            try:
                if tofile:
                    with open(target, encoding="utf-8") as h:
                        o = h.read()
                json.loads(o)
            except ValueError as e:
                r.violation("result-unreadable", error=str(e), **info)
        return
    r.see("fault " + str(fault))
    r.see("fault in " + where)
    if rc == 0:
        r.violation("failure-not-reported", **info)
        return
    if not err.strip():
        r.violation("failure-without-message", **info)
    if rc < 0:
        r.violation("killed", **info)
    if cmd in ("pack_cli", "inputs_schema_gen", "expression_refactor", "normalizer") and (o.strip() or made):
        r.violation("result-in-spite-of-failure", **info)
    r.see("failures judged")


def chunk(k, r):
    rng = C.rng("cli", k)
    for _ in range(scale(10, 60)):
        d = tempfile.mkdtemp(dir=C.scratch)
        one(rng, d, r)
        shutil.rmtree(d, ignore_errors=True)


def body(c):
    for n in COMMANDS:
        c.need("command " + n, 15)
    for n in FILE_FAULTS:
        c.need("fault " + n, 10)
    for n in ("main", "below", "part of main", "part below", "output"):
        c.need("fault in " + n, 5)
    c.need("sound", 15)
    c.need("failures judged", 150)
    c.add(common.pool_run(chunk, range(scale(40, 300))))


common.main(C, body)
