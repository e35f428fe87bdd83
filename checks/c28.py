"""C28 nothing left behind: each workload runs many times in a process of its own, whose resources are counted before and after."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
import common
from common import scale

C = common.Check("C28", "one workload (evaluations that end, fail, time out or lose their engine, in threads, with engines of their own; "
                 "loading and each of the converting commands, on sound and damaged documents), repeated in a process of its own, and "
                 "a way of ending it; distinct by workload, seed and end; non-trivial = the workload did something (evaluations or "
                 "conversions that ended or failed were counted)")
UNITS = ["evaluate", "threads", "fails", "slow", "slow_threads", "dies", "dies_within", "console", "library", "large", "own_engine",
         "same_context", "old_node", "forked", "load", "pack", "split", "refactor", "normalize", "cite", "images", "schema"]
JS = UNITS[:14]
ENDS = ["end", "exit", "error", "interrupt", "kill"]
NODE = shutil.which("node") or shutil.which("nodejs")
STUBS = {
    "docker": '#!/bin/bash\nif [ "$1" = images ]; then echo 1; exit 0; fi\nif [ "$1" = run ]; then exec "%s" --eval "${@: -1}"; fi\n'
              'if [ "$1" = save ]; then while [ "$1" != -o ] && [ $# -gt 0 ]; do shift; done; echo image > "$2"; fi\nexit 0\n' % NODE,
    "singularity": '#!/bin/bash\nfor a; do case "$a" in *.sif|*.img) echo image > "$a";; esac; done\nexit 0\n',
    "node": '#!/bin/bash\nif [ "$1" = -v ] || [ "$1" = --version ]; then echo v0.9.0; exit 0; fi\nexec "%s" "$@"\n' % NODE,
}
STUBS["nodejs"] = STUBS["node"]


def prepare(d, unit):
    os.makedirs(d + "/docs/sub")
    os.makedirs(d + "/out")
    os.makedirs(d + "/bin")
    for name, text in STUBS.items():
        if "node" in name and unit != "old_node":
            continue
        with open(d + "/bin/" + name, "w") as h:
            h.write(text)
        os.chmod(d + "/bin/" + name, 0o755)
    tool = {"cwlVersion": "v1.2", "class": "CommandLineTool", "baseCommand": "echo", "arguments": ["$(inputs.x + 1)"],
            "requirements": {"InlineJavascriptRequirement": {}, "DockerRequirement": {"dockerPull": "a/b:1"}},
            "hints": {"SoftwareRequirement": {"packages": {"p": {"version": ["1"]}}}},
            "inputs": {"x": {"$import": "x.yml"}}, "outputs": {"o": "stdout"}}
    flow = {"cwlVersion": "v1.2", "class": "Workflow", "requirements": {"StepInputExpressionRequirement": {}, "InlineJavascriptRequirement": {}},
            "inputs": {"x": "int"}, "outputs": {"o": {"type": "File", "outputSource": "s/o"}},
            "steps": {"s": {"in": {"x": {"source": "x", "valueFrom": "$(self + 1)"}}, "out": ["o"], "run": "sub/tool.cwl"}}}
    broken = dict(flow, steps={"s": {"in": {"x": "x"}, "out": ["o"], "run": "sub/tool.cwl"}, "t": {"in": [], "out": [], "run": "gone.cwl"}})
    small = {"class": "CommandLineTool", "baseCommand": "echo", "inputs": [], "outputs": []}
    graph = {"cwlVersion": "v1.2", "$graph": [dict(small, id="a"), {"class": "Workflow", "id": "main", "inputs": [], "outputs": [],
             "steps": [{"id": "s", "in": [], "out": [], "run": "#a"}]}]}
    old = dict(small, cwlVersion="v1.0", arguments=["$(1 + 1)"], requirements=[{"class": "InlineJavascriptRequirement"}])
    for name, doc in (("main.cwl", flow), ("sub/tool.cwl", tool), ("sub/x.yml", {"type": "int", "doc": "d"}), ("bad.cwl", broken),
                      ("graph.cwl", graph), ("old.cwl", old)):
        with open(d + "/docs/" + name, "w") as h:
            json.dump(doc, h)


def alive(pid, started):
    try:
        with open("/proc/%d/stat" % pid) as h:
            f = h.read().rsplit(")", 1)[1].split()
    except OSError:
        return False
    return f[19] == started and f[0] not in "ZX"


def one(item, r):
    unit, k, end = item
    d = tempfile.mkdtemp(dir=C.scratch)
    prepare(d, unit)
    env = dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"], HOME=d)
    n = scale(8, 25)
    p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(common.__file__), "leakdriver.py"), unit, "%d/%d" % (common.SEED, k), str(n), d, end],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True, env=env, cwd=d + "/docs")
    line = p.stdout.readline()
    p.stdout.close()
    try:
        p.wait(100)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        r.see("no end")
        return
    if not line:
        r.see("no result")
        return
    got = json.loads(line)
    before, after, count = got["before"], got["after"], got["count"]
    info = {"workload": unit, "end": end, "repeated": n, "evaluations": count}
    done = count["ended"] + count["failed"]
    r.case([unit, k, end], nontrivial=bool(done))
    r.see("workload " + unit, done)
    r.see("ended " + end)
    for what in before:
        a, b = before[what], after[what]
        if what in ("processes", "open files", "threads"):
            # an engine more or less is kept for the next evaluation; what is left behind each time adds up
            if b - a >= n / 2:
                r.violation("left-" + what.replace(" ", "-"), **info, before=a, after=b, open=got["open"][-12:])
        elif a != b or what == "temporary files" and b:
            r.violation("changed-" + what.replace(" ", "-"), **info, before=str(a)[-500:], after=str(b)[-500:])
        r.see("counts compared")
    # those that still ran get the time to see that nobody is there any more
    left = got["children"]
    for _ in range(600):
        left = [x for x in left if alive(x[0], x[2])]
        if not left:
            break
        time.sleep(0.05)
    r.see("engines seen at the end", len(got["children"]))
    for pid, _, _ in left:
        os.kill(pid, signal.SIGKILL)
    if left:
        r.violation("outlives-the-program", **info, processes=len(left))
    shutil.rmtree(d, ignore_errors=True)


def body(c):
    items = [(u, k, ENDS[(i + k) % len(ENDS)]) for i, u in enumerate(UNITS) for k in range(scale(2 if u in JS else 1, 8))]
    c.add(common.pool_run(one, items))
    for u in UNITS:
        c.need("workload " + u, 2)
    for e in ENDS:
        c.need("ended " + e, 2)
    c.need("engines seen at the end", 5)


common.main(C, body)
