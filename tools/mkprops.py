"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARS = ["src/cwl_utils/parser/__init__.py", "src/cwl_utils/parser/cwl_v1_0.py",
        "src/cwl_utils/parser/cwl_v1_1.py", "src/cwl_utils/parser/cwl_v1_2.py"]
PU = ["src/cwl_utils/parser/utils.py", "src/cwl_utils/parser/cwl_v1_0_utils.py",
      "src/cwl_utils/parser/cwl_v1_1_utils.py", "src/cwl_utils/parser/cwl_v1_2_utils.py"]

p("C01", "Loading and saving a CWL document loses, adds and changes nothing",
  "For every valid CWL v1.0, v1.1 or v1.2 document, loading it and saving the result yields a document with the same meaning: the same cwlVersion and classes, every field with its value at every nesting level (falsy values such as 0, false, empty strings and empty lists included), list order, extension fields with $namespaces and $schemas, and identifiers and references that denote the same things. Saving is deterministic up to generated anonymous names, and reloading the saved document and saving it again changes its meaning no further.",
  ["inputs", "histories"], "all valid documents of the three supported versions: every class, field and type alternative of the CWL schemas, any nesting, packed ($graph) or single, any load/save/load/save history",
  "The tests save a few sample files and compare with fixtures; the schema has several hundred class/field/type combinations per version in about 25k generated lines each.",
  PARS, [("fromDoc / save of each class", "src/cwl_utils/parser/cwl_v1_*.py"), ("save(), save_relative_uri(), prefix_url()", "src/cwl_utils/parser/cwl_v1_*.py"), ("save dispatch", "src/cwl_utils/parser/__init__.py:save")],
  observe=["objects returned by load_document*", "value returned by save()"])

p("C02", "Invalid CWL documents are rejected with a validation error, valid ones load",
  "A document that violates the CWL schema of its declared version (missing required field, value of the wrong type or outside an enumeration, unknown class, misspelt non-extension field, field that does not exist in that version, wrong or missing class) is never loaded: loading raises the library's validation error, which names the offending field or class, and no other kind of exception escapes. A document that conforms to that schema is always accepted.",
  ["inputs"], "all documents one schema violation away from a valid one, at any nesting level, in each version; all valid documents",
  "Negative tests exist for a handful of hand-written broken files; the schema admits thousands of distinct violations.",
  PARS, [("_UnionLoader / _RecordLoader / _EnumLoader / _ArrayLoader / _PrimitiveLoader", "src/cwl_utils/parser/cwl_v1_*.py"), ("required/unknown field checks in fromDoc", "src/cwl_utils/parser/cwl_v1_*.py"), ("load_document_by_yaml", "src/cwl_utils/parser/__init__.py")],
  observe=["outcome of load_document*"])

p("C03", "Equivalent CWL spellings load to the same objects",
  "A document written with CWL's shorthands (maps instead of lists for inputs, outputs, steps, step inputs, requirements, hints, fields and defs; the short 'key: value' form; type suffixes '?' and '[]'; secondaryFiles strings; $import of a sub-document and $include of text, relative to the file containing them, nested) loads to the same objects as the fully spelled-out document, in the same order rules, for every version. JSON and YAML spellings of one document are interchangeable too.",
  ["inputs"], "all valid documents times all combinations of shorthand choices at each place where one is allowed",
  "Tests use documents as they happen to be written; equivalence between spellings is a relation over pairs no test compares systematically.",
  PARS, [("_IdMapLoader, _TypeDSLLoader, _SecondaryDSLLoader", "src/cwl_utils/parser/cwl_v1_*.py"), ("$import/$include handling in _document_load", "src/cwl_utils/parser/cwl_v1_*.py")],
  observe=["objects returned by load_document*", "save()"])

p("C04", "All ways of loading a document agree, and pick the right version and process",
  "Loading the same document from a path, a file or http URI, a text string or already-parsed YAML gives equal results, as objects of the version named by its cwlVersion; a missing or unsupported cwlVersion is reported as an error and the input is not modified. For a packed $graph document, the process named by the id or URL fragment is returned, '#main' when none is named, all of them in file order when all are requested, and an id that is absent is an error; the version-query helpers report that same version.",
  ["inputs", "configurations"], "all entry points x versions x packed or single documents x fragment/id/load_all choices, over local files and loopback HTTP",
  "Tests exercise a few entry points each with one document and mostly one version; agreement across all entry points is a relation.",
  ["src/cwl_utils/parser/__init__.py", "src/cwl_utils/utils.py"], [("load_document, load_document_by_uri/string/yaml", "src/cwl_utils/parser/__init__.py"), ("_get_id_from_graph, cwl_version", "src/cwl_utils/parser/__init__.py"), ("load_step", "src/cwl_utils/parser/utils.py")],
  observe=["objects returned by load_document*"])

p("C05", "Identifiers and references resolve to the absolute targets CWL defines",
  "After loading, every identifier is the absolute URI that CWL scoping gives it and every reference (source, outputSource, scatter, step out, run, record and enum names and type references, format, $schemas, namespace-prefixed terms) is the absolute URI of its target, relative to the base URI of the file it was written in, including nested inline processes, imports from other directories, packed documents and percent-encoded or unusual characters. Saving writes references that resolve back to the same targets, relative or absolute as requested.",
  ["inputs"], "all documents with any nesting of scopes, names, relative and absolute references, base URIs and namespace prefixes",
  "Resolution depends on combinations of scope depth, reference form and base URI; tests show only typical ones.",
  PARS, [("expand_url, _URILoader, _document_load_by_url", "src/cwl_utils/parser/cwl_v1_*.py"), ("save_relative_uri, prefix_url", "src/cwl_utils/parser/cwl_v1_*.py")],
  observe=["attributes of loaded objects", "save()"])

p("C06", "Parameter references and string interpolation evaluate exactly as CWL defines",
  "A '$(...)' parameter reference evaluates to exactly the value at that path of inputs, self or runtime (dotted and bracketed segments with escaped quotes, integer indices, length of arrays, the null literal), with its type when it is the whole string apart from surrounding white space, and to its JSON or text form when embedded in other text; anything that is not a reference or expression is left as it is, with backslash escapes handled per the CWL version's rules. Of several InlineJavascriptRequirements the last, most specific one gives the expression library. Values that are not strings are returned as they are, evaluation leaves the inputs unmodified, and an undefined symbol, missing field, out-of-range index or unbalanced expression is an error and never a silently wrong value.",
  ["inputs"], "all strings mixing literal text, escapes and references; all nested input values (any JSON type, unicode, bytes), both escaping behaviours",
  "The tests evaluate a few dozen strings; the scanner is a state machine over arbitrary text and the resolver recurses over arbitrary data.",
  ["src/cwl_utils/expression.py", "src/cwl_utils/sandboxjs.py", "src/cwl_utils/utils.py"], [("scanner, interpolate, evaluator, do_eval", "src/cwl_utils/expression.py"), ("regex_eval, param_re, segments", "src/cwl_utils/sandboxjs.py"), ("bytes2str_in_dicts", "src/cwl_utils/utils.py")],
  observe=["do_eval() results"])

p("C07", "JavaScript evaluations return the expression's own value, whatever else happened",
  "Evaluating a CWL JavaScript expression or function body, with or without a library, returns exactly the JSON value that expression yields for its inputs, of any size, nesting and character set, whatever evaluations came before in the process or run concurrently in other threads. Syntax errors, thrown exceptions, timeouts and a dying JavaScript engine are reported as errors for the evaluation they hit and for no other: evaluation after any such fault gives correct results again, and a run-away expression is stopped near its time limit.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all interleavings of evaluations from several threads; all histories mixing successes, syntax errors, exceptions, timeouts and engine deaths; results from empty to several megabytes",
  "The tests evaluate single expressions in a fresh state; the engine is a long-lived subprocess driven over pipes whose framing, buffering and recovery depend on history and timing.",
  ["src/cwl_utils/sandboxjs.py", "src/cwl_utils/cwlNodeEngine.js", "src/cwl_utils/cwlNodeEngineJSConsole.js", "src/cwl_utils/cwlNodeEngineWithContext.js"],
  [("NodeJSEngine.exec_js_process, eval, new_js_proc", "src/cwl_utils/sandboxjs.py"), ("process_finished_str framing", "src/cwl_utils/cwlNodeEngine*.js")],
  state=[("localdata.procs", "per-thread persistent engine processes", "src/cwl_utils/sandboxjs.py")],
  observe=["results of JSEngine.eval / do_eval", "engine process ids"])

p("C08", "Evaluated JavaScript is isolated from the host and from other evaluations",
  "Code in a CWL JavaScript expression can neither see nor change anything left by another evaluation (globals, prototypes, modified built-ins) nor reach the host: no module loading, process object, file system, environment variable or network, directly or through constructors and prototypes of the objects it is given. What it does to its inputs never changes the caller's values.",
  ["inputs", "histories"], "all pairs of a hostile expression followed by a victim evaluation; all known escape idioms of the engine",
  "No test attacks the sandbox or runs a hostile expression before another.",
  ["src/cwl_utils/cwlNodeEngine.js", "src/cwl_utils/cwlNodeEngineJSConsole.js", "src/cwl_utils/cwlNodeEngineWithContext.js", "src/cwl_utils/sandboxjs.py"],
  [("vm.runInNewContext", "src/cwl_utils/cwlNodeEngine*.js")], observe=["results of evaluations", "files and processes touched"])

p("C09", "Type compatibility checks give the verdict the CWL type rules give",
  "For any source type and sink type (primitive, File, Directory, Any, null, enum, record, array, unions, nested, with or without linkMerge and valueFrom), checking a link reports 'pass', 'warning' or 'exception' exactly as the CWL rules imply: pass when every source alternative is acceptable, warning when only some are, exception when none; records are matched by field name, arrays by items, linkMerge by its list semantics. The verdict is the same for each CWL version, does not depend on the order of union members, and checking changes neither type.",
  ["inputs"], "all pairs of type expressions up to bounded depth and width, all linkMerge and valueFrom settings",
  "Tests cover a few type pairs from sample workflows.",
  PU, [("can_assign_src_to_sink, check_types, check_all_types, _compare_type", "src/cwl_utils/parser/cwl_v1_*_utils.py, parser/utils.py")],
  observe=["return values of the type checks"])

p("C10", "Static workflow checking reports exactly the ill-typed links",
  "Statically checking a workflow of any version raises a validation error exactly when some link into a step input or workflow output can never be type-correct (taking scatter, linkMerge, pickValue, valueFrom and defaults into account) or a listed step input whose inline or referenced process requires a value has neither source, default nor valueFrom and the process no default, and it accepts every well-typed workflow. The message names each offending source and sink, and the workflow object is not modified.",
  ["inputs"], "all workflows: sources (inputs, step outputs, lists of them) x sinks (step inputs, workflow outputs) x modifiers, correct and with one injected type error",
  "Tests check some fixture workflows and one or two errors.",
  PU, [("static_checker", "src/cwl_utils/parser/utils.py"), ("check_all_types, type_for_source", "src/cwl_utils/parser/cwl_v1_*_utils.py")],
  observe=["raised ValidationException and its message"])

p("C11", "Inferred source and step types account for scatter, merging and picking",
  "The type inferred for any source reference, list of sources, step input or step output is the declared type (stdin/stdout/stderr as File) transformed by what CWL defines: one array level per scatter (per scattered dimension for nested cross products), array wrapping or flattening for linkMerge, and null removal or array for pickValue where the version has it. Unresolvable sources are an error rather than a wrong type, and inference modifies neither the workflow nor its types.",
  ["inputs"], "all workflows with typed inputs and step outputs x scatter methods x linkMerge x pickValue x number and mix of sources",
  "Tests infer types for a few fixture steps.",
  PU, [("type_for_source, type_for_step_output, type_for_step_input, param_for_source_id, type_for_step", "src/cwl_utils/parser/utils.py, cwl_v1_*_utils.py")],
  observe=["returned types"])

p("C12", "Packing yields one self-contained, equivalent document",
  "Packing a workflow, tool or expression tool whose steps, imports, includes and schema definitions are spread over files and directories, local or on the web, yields a single valid document of the same version that loads without any of the original files, contains no $import, $include or external run reference, and has the same processes, inputs, outputs, links, types, requirements, expressions and values as the original; a packed workflow that runs a workflow declares SubworkflowFeatureRequirement, or is part of one that does. The source files are left untouched and packing again, or packing a packed document, gives an equivalent document. Command, function and locale make no difference.",
  ["inputs", "histories"], "all trees of CWL files: nesting of sub-workflows, import forms, sub-directories, shared and repeated tools, SchemaDefRequirement imports; sequences of packs in one process",
  "Tests pack about ten fixtures and mostly check that it does not fail or that cwltool accepts it.",
  ["src/cwl_utils/pack.py", "src/cwl_utils/pack_cli.py", "src/cwl_utils/schemadef.py", "src/cwl_utils/utils.py"],
  [("pack, pack_process, resolve_imports, normalize_*", "src/cwl_utils/pack.py"), ("build_user_defined_type_dict, inline_types, normalise_types", "src/cwl_utils/schemadef.py"), ("load_linked_file, resolved_path", "src/cwl_utils/utils.py")],
  observe=["pack() result and cwl-pack output", "loading the result with the originals removed"])

p("C13", "Splitting a packed document is lossless and the parts still refer to each other",
  "Splitting a packed $graph document writes one file per process, and the main process also under the requested name, each a valid document that loads on its own or with its siblings and carries the version, namespaces and schemas of the whole; following the run references from the main file gives a workflow equivalent to the packed one, with every id, source, type reference, scatter, field and value preserved. Nothing is written outside the chosen output directory, files of an earlier split are replaced entirely and all other files in it are left as they are, the packed file is not modified, names stay distinct for distinct processes, and the locale makes no difference.",
  ["inputs"], "all packed documents: any ids (dots, dashes, nested, one a prefix of another, with or without .cwl), list or single sources, schema definitions, YAML or JSON, pretty-printed or not",
  "Tests split a couple of fixtures and check that files appear.",
  ["src/cwl_utils/graph_split.py"], [("graph_split, rewrite, rewrite_types, rewrite_import, rewrite_schemadef, cwl_format, json_dump, yaml_dump", "src/cwl_utils/graph_split.py")],
  observe=["files in the output directory"])

p("C14", "Container image extraction finds exactly the images used and pulls each right",
  "Extraction lists exactly the container image requirements and hints that apply anywhere in a document: tools, workflows, steps, and the embedded, referenced or packed sub-processes at any depth, for every version, with ':latest' added only to an image without a tag or digest. Saving images runs the chosen engine's pull and save commands once per distinct image, on distinct files inside the target directory, honours 'force' and already present files, and reports an engine failure as an error instead of leaving or claiming an image that is not there.",
  ["inputs", "fault_sequences"], "all documents with DockerRequirement at any place; all image reference forms; docker/singularity engines that succeed, fail or are missing; existing image files; force on and off",
  "Tests need network and real engines; they pull one or two images.",
  ["src/cwl_utils/docker_extract.py", "src/cwl_utils/image_puller.py", "src/cwl_utils/singularity.py"],
  [("traverse, get_process_from_step, extract_docker_requirements", "src/cwl_utils/docker_extract.py"), ("DockerImagePuller, SingularityImagePuller", "src/cwl_utils/image_puller.py")],
  observe=["yielded requirements, stdout", "commands received by stand-in engines, files written"])

p("C15", "Citation extraction lists every software package of a document and nothing else",
  "Extracting citations from a document yields every SoftwareRequirement package, with its name, versions and specs exactly as written, found in requirements or hints of the tool, workflow, steps and embedded, referenced or packed sub-processes at any depth, in document order and for every version. Documents without such requirements, or with other requirements and unknown hints, yield nothing and no error.",
  ["inputs"], "all documents with SoftwareRequirement at any place and any spelling of its packages",
  "One fixture is tested for non-empty output.",
  ["src/cwl_utils/cite_extract.py"], [("traverse, extract_software_packages, process_software_requirement, get_process_from_step", "src/cwl_utils/cite_extract.py")],
  observe=["yielded packages", "cwl-cite-extract stdout"])

p("C16", "Expression refactoring removes expressions and keeps what the workflow computes",
  "Refactoring a tool, ExpressionTool or workflow whose JavaScript expressions depend on inputs and self yields a valid document of the same version, in which no JavaScript expression is left outside ExpressionTools (or, by default, tools running node) in valueFrom, when, arguments, input bindings, standard streams but stdin, globs, outputEval, and the resource, environment and working directory requirements and hints, apart from those the --skip switches name, and which keeps the hints and computes the same outputs for every job as the original; the values picked by pickValue are the same, and only null is passed over. The original is never modified; a document without such expressions is reported as unmodified (alone: exit status 7, nothing written; with others: copied as it is); each result is named after its input, and a document that is invalid or uses what refactoring does not support is reported and written nowhere, without keeping the others from being refactored.",
  ["inputs", "programs"], "all workflows and tools with expressions in the listed places, inline and external processes, sub-workflows, scatter, conditions, expression libraries, each version, all command line switches; excluded: expressions of runtime, of staged paths and names, in secondaryFiles, format and nested bindings, and $graph documents",
  "Tests run a number of conformance fixtures and compare little of the result's behaviour.",
  ["src/cwl_utils/expression_refactor.py", "src/cwl_utils/cwl_v1_0_expression_refactor.py", "src/cwl_utils/cwl_v1_1_expression_refactor.py", "src/cwl_utils/cwl_v1_2_expression_refactor.py"],
  [("traverse, process_*_reqs_and_hints, cltool_*, generate_etool_from_expr, replace_expr_with_etool", "src/cwl_utils/cwl_v1_*_expression_refactor.py"), ("refactor", "src/cwl_utils/expression_refactor.py")],
  observe=["outputs of executing original and refactored documents", "the refactored document"])

p("C17", "Normalising yields a self-contained, equivalent current-version document",
  "Normalising a CWL document of any supported version writes a packed, valid v1.2 document as JSON, under the output directory and named after the input, that refers to no other document, computes the same outputs as the original for every job even when the documents it was made of are gone, and (unless refactoring was declined) has no JavaScript expression outside ExpressionTools or tools running node, apart from those the --skip switches name. Nothing else is written and the originals are not modified. A document that is of an unsupported version, invalid, missing, or cannot be refactored is reported by name and in the exit status and written nowhere, without keeping the others from being normalised.",
  ["inputs", "programs"], "all documents of the three versions (single tools of draft-3), multi-file or single, steps of older versions than the workflow, $import, $include, type definitions, namespaces and formats, with and without expressions, all command line switches, several documents at once; excluded: what is excluded for packing and refactoring, and defects of cwlupgrader",
  "Two fixtures are normalised in tests, checked for presence of output.",
  ["src/cwl_utils/normalizer.py", "src/cwl_utils/expression_refactor.py"], [("run, normalize, upgrade", "src/cwl_utils/normalizer.py")],
  observe=["output files, exit status, log", "executing original and result"])

p("C18", "The generated JSON schema describes exactly the valid inputs of a process",
  "For every tool or workflow, the generated schema is a valid, self-contained JSON schema (every reference resolves inside it) with one property per input, marked required exactly when the input is neither nullable nor defaulted, carrying its doc. It accepts every job object whose values match the declared CWL input types, including File and Directory objects, nested records, arrays, enums, unions and nullable types, and rejects objects with a missing required input or a value matching no alternative. The command writes the same schema in every locale.",
  ["inputs"], "all input type declarations of any nesting, names and versions x conforming and non-conforming job objects",
  "Tests validate the fixtures' schema against a few example jobs.",
  ["src/cwl_utils/inputs_schema_gen.py"], [("JSONSchemaProperty, generate_definition_from_schema, cwl_to_jsonschema, slim_definitions", "src/cwl_utils/inputs_schema_gen.py")],
  observe=["the generated schema applied to job objects"])

p("C19", "File format checks accept a file exactly when its format is allowed",
  "Checking a file or a list of files against an input's accepted formats (one or more) passes exactly when every file's format equals, or is an ontology subclass or equivalent of (transitively), one of the accepted formats; an absent file (null) is skipped, and a file without a format is an error. Any file that does not match is reported as an error naming that file, wherever it stands in the list, and the check terminates on cyclic ontologies.",
  ["inputs"], "all files and lists of files x format lists x ontology graphs including cycles and equivalences",
  "Three or four fixed cases on one small ontology.",
  ["src/cwl_utils/file_formats.py"], [("check_format, format_subclass_of, formatSubclassOf", "src/cwl_utils/file_formats.py")],
  observe=["return or exception of check_format"])

p("C20", "Stream shorthands and file content reads follow the CWL rules for any content",
  "Converting the stdin, stdout and stderr shorthands of a command line tool gives an equivalent tool: each shorthand input becomes a File input wired to the tool's standard input, each shorthand output a File output globbing exactly the stream's file name, with generated names distinct per content and the same for the same content (types without a name aside, as those get random ones), explicit names kept, nothing else altered, and a second conversion changing nothing. Reading file contents returns exactly the UTF-8 text of any file within the version's 64 KiB limit; beyond the limit the older versions return the text of the first 64 KiB, less a character cut in two, and v1.2 reports an error.",
  ["inputs"], "all tools with any subset of shorthands, names and other fields, three versions; all files, in particular of sizes around the limit and with multi-byte characters",
  "Tests convert six fixtures and read two file sizes of one-byte characters.",
  PU, [("convert_stdstreams_to_files", "src/cwl_utils/parser/cwl_v1_*_utils.py"), ("content_limit_respected_read(_bytes)", "src/cwl_utils/parser/cwl_v1_*_utils.py")],
  observe=["the tool object after conversion", "returned content"])

p("C21", "Results do not depend on earlier calls, hash order or concurrent threads",
  "Parsing, saving, version queries, type inference, static checking, extraction, packing and schema generation give results for a document that depend only on that document and its files: the same after any other calls on other documents, in any thread running concurrently, and under any hash seed, up to generated anonymous names. None of these operations modifies the objects, parsed YAML or loading options passed to it unless that is its documented purpose.",
  ["histories", "schedules", "inputs"], "all histories and interleavings of library calls over a set of documents",
  "Each test calls one function once in a fresh state and inspects its result, never its arguments or its effect on later calls.",
  PARS + PU + ["src/cwl_utils/pack.py", "src/cwl_utils/schemadef.py", "src/cwl_utils/inputs_schema_gen.py"],
  [("LoadingOptions copying, idx caches", "src/cwl_utils/parser/cwl_v1_*.py"), ("module level state", "src/cwl_utils/schemadef.py, parser/__init__.py")],
  observe=["results per call", "deep snapshots of arguments before and after"])

p("C22", "Job input files load with the same meaning in every version and location",
  "Loading a job input file (YAML or JSON; from path, string or parsed data) returns every input with its exact value and type, with File and Directory locations, including nested secondary files, listings, records and arrays, resolved to the absolute URI relative to the file that contains them, $import and $include processed, and nothing else changed. The result is the same for v1.0, v1.1 and v1.2 and the parsed data passed in keeps its values.",
  ["inputs"], "all job objects of any nesting, relative and absolute locations and paths, base locations",
  "One or two job files are loaded in tests.",
  ["src/cwl_utils/parser/__init__.py", "src/cwl_utils/parser/utils.py", "src/cwl_utils/parser/cwl_v1_0_utils.py", "src/cwl_utils/parser/cwl_v1_1_utils.py", "src/cwl_utils/parser/cwl_v1_2_utils.py"],
  [("load_inputfile, load_inputfile_by_string, load_inputfile_by_yaml", "src/cwl_utils/parser/cwl_v1_*_utils.py, parser/utils.py")],
  observe=["returned mapping"])

p("C23", "Container engine capability checks follow the engine's reported version",
  "Which features of a Singularity-compatible engine are taken as available (each minimum-version query, and whether it is Apptainer) is decided exactly by comparing the version the installed engine reports, for any release, vendor prefix or suffix, with the required one as version numbers: a minimum-version query holds for that version and every newer one, a query for one particular version for that version only. The engine is asked at most once per process, and an absent engine or unreadable version is reported as an error rather than guessed.",
  ["inputs", "configurations"], "all version strings of singularity, singularity-ce, singularity-pro and apptainer releases x all capability queries",
  "Tests cover a few fixed version strings or need a real engine.",
  ["src/cwl_utils/singularity.py"], [("get_version, is_apptainer_1_or_newer, is_version_*", "src/cwl_utils/singularity.py")],
  state=[("_SINGULARITY_VERSION, _SINGULARITY_FLAVOR", "cached engine version", "src/cwl_utils/singularity.py")],
  observe=["return values with a stand-in engine on PATH"])

p("C24", "Parsed objects compare by content, and built documents equal loaded ones",
  "Two objects of the parsers' classes are equal (==, in both directions, and not !=) exactly when they are of the same class and all of their CWL fields are equal, at any depth: loading a document twice gives equal objects, objects that differ in any one field are unequal, no object equals one of another class or a plain value, and objects that have a hash and are equal have the same one. A document made by calling the classes' constructors with the values of a loaded one is equal to it and is saved as the same text, and no two objects made without extension fields or loading options share theirs.",
  ["inputs"], "all documents of three versions x all pairs of objects x all single-field differences",
  "Tests compare a handful of objects, and build one tool from objects.",
  ["src/cwl_utils/parser/cwl_v1_0.py", "src/cwl_utils/parser/cwl_v1_1.py", "src/cwl_utils/parser/cwl_v1_2.py"],
  [("__init__, __eq__, __hash__, save of every class", "src/cwl_utils/parser/cwl_v1_2.py")],
  observe=["== and hash of parsed objects", "save() of built objects"])

p("C25", "Expressions run in the local Node.js if new enough, else in the chosen engine",
  "For any installation, an expression is evaluated to its value by the local Node.js (nodejs or node) when one works and is of version 0.10.26 or newer, compared as version numbers and for pre-releases too, and then no container engine is called. Otherwise exactly the container engine that was asked for (docker, podman, singularity or udocker) is called, with options it has, with its own name of the Node.js image, which is pulled first if and only if it is not there or force_docker_pull is given, for singularity to and from CWL_SINGULARITY_CACHE or else the working directory, and in a user namespace if singularity supports it; a started engine is reused. If there is no usable Node.js and no such engine, or pulling or running fails, the result is a JavascriptException.",
  ["inputs", "configurations", "fault_sequences"], "all versions and states of Node.js x four container engines x presence of the image x failures x sequences of evaluations",
  "Tests run with the one Node.js that is installed, or need the real container engines.",
  ["src/cwl_utils/sandboxjs.py", "src/cwl_utils/utils.py"], [("new_js_proc, check_js_threshold_version", "src/cwl_utils/sandboxjs.py"), ("singularity_supports_userns", "src/cwl_utils/utils.py")],
  state=[("have_node_slim, localdata.procs", "known image and started engines", "src/cwl_utils/sandboxjs.py")],
  observe=["value or error of each evaluation", "commands and directories seen by stand-ins on PATH"])

p("C26", "An engine of the caller's evaluates the expressions, with all it needs",
  "For any JavaScript engine given to do_eval or interpolate, or set as the default one, whose methods return their result or something to await for it, in the main or any other thread: each JavaScript fragment of a string is evaluated by one call of the engine's eval, with the fragment's text, the expression library and the variables, and each parameter reference by one call of its regex_eval, with symbol, rest and value, in the order of the string and up to the first error. The options passed (the timeout and others, falsy ones too) reach every call, the results are used as they are and the errors reported, no other engine is called, and the default engine, the variables and the caller's event loop stay as they are.",
  ["inputs", "configurations", "schedules"], "all strings x engines with plain, coroutine, awaitable-returning and mixed methods x ways of choosing the engine x options x threads and event loops; excluded: calls from within a running event loop",
  "No test supplies an engine.",
  ["src/cwl_utils/expression.py", "src/cwl_utils/sandboxjs.py"], [("evaluator, interpolate, do_eval, jshead", "src/cwl_utils/expression.py"), ("JSEngine, get_js_engine, set_js_engine", "src/cwl_utils/sandboxjs.py")],
  observe=["log of the calls of recording engines", "values and errors of evaluations"])

p("C27", "No command passes over a failure",
  "Each of the seven commands, run on a document one of whose files, itself or one that it needs at any depth (run, $import), is missing, a directory, a dangling link, malformed, not text, of an unsupported version or (for those that read it as CWL) invalid, or told to write where nothing can be written, exits with a status other than 0 and a message on standard error; packing, schema generation, refactoring and normalising then leave no result, neither on standard output nor in files. On the sound document each exits with 0 (refactoring with 7 if there was nothing to do) and writes its result.",
  ["inputs", "fault_sequences"], "all trees of documents x seven commands x damage to any one file x kinds of damage x unwritable outputs; excluded: documents without $graph given to cwl-graph-split, missing empty lists, which packing takes as empty, and what a command need not read or validate",
  "Tests run the commands on sound documents and a few invalid ones.",
  ["src/cwl_utils/cite_extract.py", "src/cwl_utils/docker_extract.py", "src/cwl_utils/pack_cli.py", "src/cwl_utils/inputs_schema_gen.py", "src/cwl_utils/expression_refactor.py", "src/cwl_utils/normalizer.py", "src/cwl_utils/graph_split.py"],
  [("main, run", "src/cwl_utils/normalizer.py"), ("main, run", "src/cwl_utils/expression_refactor.py"), ("main, run", "src/cwl_utils/inputs_schema_gen.py"), ("load_linked_file", "src/cwl_utils/utils.py"), ("get_process_from_step", "src/cwl_utils/cite_extract.py")],
  observe=["exit status, standard output and error of each command", "files in the output directory"])

p("C28", "Nothing is left behind by evaluations and conversions",
  "However many expressions are evaluated, and whether they end, fail, run out of time, lose their engine, or are evaluated in threads that end, with engines that are dropped, or by a container engine because Node.js is too old, the processes, open files and threads of the program do not add up; nor do they when documents, sound or damaged, are loaded, packed, split, refactored, normalised, searched for images and citations, or turned into schemas. No temporary files stay, and working directory, environment, module path, umask and signal handlers are as before. However the program ends, also killed, its engines end with it.",
  ["inputs", "histories", "fault_sequences"], "all sequences of evaluations and conversions, repeated; excluded: the one engine kept for each thread, kind and context, and evaluations that are interrupted from outside (KeyboardInterrupt)",
  "Tests run a handful of evaluations in a process that ends soon after; nobody counts its files and processes.",
  ["src/cwl_utils/sandboxjs.py", "src/cwl_utils/utils.py", "src/cwl_utils/normalizer.py", "src/cwl_utils/graph_split.py"],
  [("NodeJSEngine.exec_js_process, new_js_proc, __del__", "src/cwl_utils/sandboxjs.py"), ("normalize, run", "src/cwl_utils/normalizer.py"), ("load_linked_file", "src/cwl_utils/utils.py")],
  observe=["processes, open files and threads of the program before and after", "temporary files", "working directory, environment, signal handlers", "engines after the program's end"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
