"""Writes MANIFEST.json from the table of checks (a property without checks/cxx.py is listed as not applicable)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("random-workload monitoring of load/save/reload against an independent reader (metaschema oracle)", "Objects and saved documents of random documents of every class/field are compared with schema-salad's own resolver on the CWL metaschema; trusts that resolver and the generator's reach (fields seen are counted)."),
 "C02": ("differential monitoring of validation verdicts on mutated documents", "Random one-edit mutants judged by schema-salad's validator; trusts that validator; places where the metaschema and CWL are read both ways are left out and counted."),
 "C03": ("metamorphic monitoring: spelled-out vs shorthand documents", "Random shorthand rewritings must load to equal objects, also compared with the reference reader."),
 "C04": ("relation monitoring across all entry points, files and loopback HTTP", "Every way of loading one document is run and the objects compared with each other and with the document."),
 "C05": ("scope-model monitoring of identifiers and references", "Random documents whose scoping is known by construction; every loaded and saved reference is compared with the target it was written for."),
 "C06": ("oracle by construction over random expressions and data", "Strings are built from literal text, escapes and references whose values are known; both escaping behaviours, with and without JavaScript."),
 "C07": ("fault-injecting histories over the real engine, threads, slow and splitting pipes", "Every result is compared with the value the expression was built from, across time-outs, engine kills, interrupts and concurrent threads; needs node."),
 "C08": ("escape idioms with canaries, object-graph crawl, pollution/victim pairs in the real engine", "Hostile code is run in the installed node; trusts that the idioms and the crawl cover the ways out (a list cannot be complete).", ),
 "C09": ("type pairs loaded by the real parser judged against an independent type model", "Random related type pairs, three versions, all merge modes; trusts the model's reading of the rules (null into Any is left out)."),
 "C10": ("well-typed workflows by construction and injected single errors, checked by the real static checker", "Random workflows with inline, referenced and packed processes; the model gives the expected verdict and the names to report."),
 "C11": ("inferred types compared with types known by construction", "Random workflows with scatter, merging, picking, conditional steps, over files and $graph; extension loops are left out for type_for_source."),
    "C12": ("differential monitor of pack() and cwl-pack: random documents spread over files are packed, and the result is read, "
            "without the parts, by an independent reader and compared with the inlined original",
            "source files are hashed before and after; seven pack entry styles; packing again and packing the packed"),
    "C13": ("monitor of cwl-graph-split: every file written is read back by an independent reader, following run references, and "
            "compared process by process with the packed document; the directory is watched for other changes",
            "random packed documents: hostile names, absolute or plain ids, written by hand or by cwltool"),
    "C19": ("every verdict of check_format() compared with a closure computed from the triples of random ontologies",
            "ontologies without anonymous classes on the path"),
    "C20": ("conversions compared with a model, converted tools run for real; bounded reads of files around the limit",
            "multi-byte characters across the limit, all three versions"),
    "C16": ("random documents are refactored, then original and result are executed with the same jobs and their outputs compared; "
            "the result is searched for remaining expressions, the directory watched for changes",
            "cwltool executes both; documents are random, most with several expressions and one to four steps"),
    "C17": ("random documents are normalised, then the originals executed, deleted, and the results executed with the same jobs and their "
            "outputs compared; the result is searched for references, other versions and expressions; good and bad documents together",
            "cwltool executes both; draft-3 is sampled with four tools"),
    "C18": ("generated schemas applied to job objects whose validity is known by construction and by a type model, all references "
            "looked up, the command run in four ways", "trusts the jsonschema validator; integral floats and undeclared keys are not judged"),
    "C21": ("each library call compared with the same call made first in a fresh process: after random histories, in concurrent threads "
            "with forced switches, under other hash seeds, after its file was changed; arguments snapshot before and after",
            "fourteen kinds of calls on seven kinds of documents; caches in LoadingOptions (idx, imports) may be filled"),
 "C22": ("every loaded job file compared value by value and type by type with the content it was written from, in three "
            "versions and from path, string and parsed data", "locations relative to nested imports; arguments hashed before and after"),
    "C23": ("every version query compared with the version a stand-in engine on PATH reports, in fresh processes",
            "versions, vendors and suffixes at random, unreadable ones and failing engines; the stand-in counts how often it is asked"),
    "C24": ("each object of random documents compared with its twin of another load, with itself changed in each single field, with other "
            "objects, and rebuilt by its constructor; equality judged by a comparison of all fields written here", "extension fields do not count for equality"),
    "C25": ("values, errors and the log of commands of stand-in Node.js and container engines on a PATH of their own, judged by the rule "
            "that says where an expression must run", "the stand-ins refuse options and image names the real engines refuse; faults injected in pull and run"),
    "C26": ("the call log of recording engines of six kinds, and the values and errors of evaluations, compared with what random strings "
            "built from known fragments call for", "not called from within a running event loop; values of fragments come from a table, so node takes no part"),
    "C27": ("exit status, messages, standard output and files of every command, run as its own process on document trees into which one "
            "fault was injected, and on the sound trees", "docker is a stand-in; faults of permissions are not injected (checks run as root)"),
    "C28": ("resource monitor: processes, open files, threads, temporary files and settings of a process counted before and after many "
            "repetitions of a workload, and its engines after its end", "evaluations interrupted from outside are left out; containers are stand-ins"),
    "C14": ("monitors of extraction (compared with the resolved document) and of the commands, files and errors seen by stand-in "
            "container engines that also fail on request", "no real engine; the stand-ins refuse what docker, podman and singularity refuse"),
    "C15": ("extracted packages and command output compared with the document resolved by an independent reader",
            "random documents in four layouts, packages in every spelling"),
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "technique": "runtime monitoring: " + T[i][0], "level": T[i][2] if len(T[i]) > 2 else "exploration",
                       "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import cwl_utils, cwltool, schema_salad' && node --version",
     "checks": checks, "not_applicable": na,
     "notes": "run.sh <id> runs checks/<id>.py against the working tree of /repo (imported in place, nothing to build)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
